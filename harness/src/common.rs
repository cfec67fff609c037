//! Shared vocabulary of the checks: networks, paths, languages, the wallet format, the C interface.

use crate::engine::*;
use crate::refimpl::{aead, b64, bip39 as rb, ed, json, json::J, secp};
use keychain::{Error, GenericKeyPath, Key, KeyFactory, KeyPath, Keychain, KeychainManager, Language, Network};
use std::collections::BTreeMap;

pub use crate::refimpl::{hex, unhex};

pub const HARD: u32 = 0x8000_0000;
pub const P44: u32 = HARD + 44;
/// 0 Bitcoin, 1 Ethereum, 2 Cardano
pub const COINS: [u32; 3] = [HARD, HARD + 60, HARD + 1815];
pub const NET_NAMES: [&str; 3] = ["bitcoin", "ethereum", "cardano"];

pub fn net(i: usize) -> Network {
  Network(COINS[i])
}

pub fn dict(l: usize) -> &'static bip39::dictionary::DefaultDictionary {
  use bip39::dictionary::*;
  match l {
    0 => &ENGLISH,
    1 => &FRENCH,
    2 => &JAPANESE,
    3 => &KOREAN,
    4 => &CHINESE_SIMPLIFIED,
    5 => &CHINESE_TRADITIONAL,
    6 => &ITALIAN,
    _ => &SPANISH
  }
}

pub const LANGS: [Language; 8] = [
  Language::English,
  Language::French,
  Language::Japanese,
  Language::Korean,
  Language::ChineseSimplified,
  Language::ChineseTraditional,
  Language::Italian,
  Language::Spanish
];
/// names of the languages in the stored form
pub const LANG_STORED: [&str; 8] = [
  "English",
  "French",
  "Japanese",
  "Korean",
  "ChineseSimplified",
  "ChineseTraditional",
  "Italian",
  "Spanish"
];

pub fn types() -> [bip39::Type; 6] {
  use bip39::Type::*;
  [Type9Words, Type12Words, Type15Words, Type18Words, Type21Words, Type24Words]
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct P(pub [u32; 5]);
impl KeyPath for P {
  fn purpose(&self) -> u32 {
    self.0[0]
  }
  fn coin(&self) -> u32 {
    self.0[1]
  }
  fn account(&self) -> u32 {
    self.0[2]
  }
  fn change(&self) -> u32 {
    self.0[3]
  }
  fn address(&self) -> u32 {
    self.0[4]
  }
}
impl P {
  pub fn of(k: &dyn KeyPath) -> P {
    P([k.purpose(), k.coin(), k.account(), k.change(), k.address()])
  }
  pub fn text(&self) -> String {
    let mut s = "m".to_string();
    for v in self.0.iter() {
      s.push('/');
      if *v >= HARD {
        s.push_str(&format!("{}'", v - HARD));
      } else {
        s.push_str(&v.to_string());
      }
    }
    s
  }
}

/// the statement of which paths a network takes
pub fn path_ok(n: usize, p: &P) -> bool {
  (n == 0 || p.0[0] == P44) && p.0[1] == COINS[n] && p.0[2] >= HARD && p.0[3] <= 1 && p.0[4] < HARD
}

pub fn gen_index(s: &mut Src) -> u32 {
  s.u32_any() & 0x7fff_ffff
}

pub fn gen_path(s: &mut Src, n: usize) -> P {
  let purpose = if n == 0 {
    match s.weighted(&[4, 2, 2, 2]) {
      0 => P44,
      1 => HARD + 49,
      2 => HARD + 84,
      _ => s.u32_any()
    }
  } else {
    P44
  };
  P([purpose, COINS[n], HARD + gen_index(s), s.below(2) as u32, gen_index(s)])
}

pub fn gen_seed(s: &mut Src) -> Vec<u8> {
  s.bytes_n(64)
}

/// characters that text handling likes to drop, fold or compose
pub const SOFT: [&str; 24] = [
  " ", "\n", "\t", "\r\n", "\u{feff}", "\u{200b}", "\u{a0}", "\u{3000}", "\0", "e\u{301}", "\u{e9}", "\u{df}", "ss", "\u{130}", "\u{131}",
  "I", "\u{ff41}", "a", "A", "\"", "'", "\\", "\u{1f600}", "\u{ac00}"
];

/// spellings of a text that sloppy handling takes for the same
pub fn respell(s: &mut Src, p: &str) -> String {
  let soft = *s.choose(&SOFT);
  match s.below(12) {
    0 => format!("{}{}", soft, p),
    1 => format!("{}{}", p, soft),
    2 => p.trim().to_string(),
    3 => p.trim_start().to_string(),
    4 => p.trim_end_matches(|c| c == '\n' || c == '\r').to_string(),
    5 => p.to_uppercase(),
    6 => p.to_lowercase(),
    7 => p.chars().filter(|c| c.is_ascii()).collect(),
    8 => p.chars().filter(|c| !c.is_control()).collect(),
    9 => p.split('\0').next().unwrap_or("").to_string(),
    10 => p.split_whitespace().collect::<Vec<_>>().join(" "),
    _ => {
      let k = s.idx(SOFT.len() - 1);
      p.replace(SOFT[k], SOFT[k + 1])
    }
  }
}

pub fn gen_pass(s: &mut Src) -> String {
  let mut p = gen_pass_plain(s);
  if s.chance(1, 5) {
    for _ in 0..s.range(1, 3) {
      let soft = *s.choose(&SOFT);
      match s.below(3) {
        0 => p.insert_str(0, soft),
        1 => p.push_str(soft),
        _ => {
          let at = s.idx(p.len() + 1);
          let at = (at..=p.len()).find(|i| p.is_char_boundary(*i)).unwrap_or(0);
          p.insert_str(at, soft);
        }
      }
    }
  }
  p
}

fn gen_pass_plain(s: &mut Src) -> String {
  match s.weighted(&[4, 2, 2, 1, 1]) {
    0 => {
      let n = s.range(0, 12) as usize;
      (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect()
    }
    1 => s.text(24),
    2 => {
      let n = s.len_far(300, 20_000);
      let c = s.char();
      let mut t: String = std::iter::repeat(c).take(n).collect();
      t.push((b'a' + s.below(26) as u8) as char);
      t
    }
    3 => String::new(),
    _ => s.text(200)
  }
}

/// HMAC pads short keys with zero bytes, so trailing NULs do not distinguish passwords of up to 128 bytes, and a longer
/// password is replaced by its hash; two passwords are one key when these forms agree.
pub fn same_password(a: &str, b: &str) -> bool {
  fn k(p: &str) -> Vec<u8> {
    let mut v = if p.len() > 128 { crate::refimpl::hash::sha512(p.as_bytes()).to_vec() } else { p.as_bytes().to_vec() };
    v.resize(128, 0);
    v
  }
  k(a) == k(b)
}

pub fn gen_entropy(s: &mut Src) -> Vec<u8> {
  let n = *s.choose(&rb::SIZES);
  s.bytes_n(n)
}

/// factory of a built-in network
pub fn factory(n: usize) -> Box<dyn KeyFactory> {
  match n {
    0 => keychain::networks::bitcoin::KeyFactory::new().boxed(),
    1 => keychain::networks::ethereum::KeyFactory::new().boxed(),
    _ => keychain::networks::cardano::KeyFactory::new().boxed()
  }
}

pub fn mask_nets(mask: u32) -> Vec<usize> {
  (0..3).filter(|i| mask >> i & 1 == 1).collect()
}

pub fn manager(mask: u32) -> Result<KeychainManager, String> {
  let v: Vec<Network> = mask_nets(mask).into_iter().map(net).collect();
  KeychainManager::with_networks(&v).map_err(|e| format!("manager for networks {:?} refused: {}", v, e))
}

/// words of a phrase a manager with these networks works with
pub fn mask_words(mask: u32) -> usize {
  if mask & 3 == 0 {
    9
  } else {
    12
  }
}

pub fn gen_phrase(s: &mut Src, words: usize) -> (usize, Vec<u8>, String) {
  let l = s.idx(8);
  let e = s.bytes_n(words / 3 * 4);
  let p = rb::phrase(l, &rb::encode(&e));
  (l, e, p)
}

/// the key data stored for a network, from the seed
pub fn ref_key_data(n: usize, seed: &[u8]) -> Vec<u8> {
  if n == 2 {
    ed::XprvEd::master(seed).0
  } else {
    secp::Xprv::master(seed).expect("seed with a valid master key").stored()
  }
}

pub fn ref_secp(seed: &[u8], p: &P) -> secp::Xprv {
  secp::Xprv::master(seed).expect("seed with a valid master key").walk(&p.0).expect("derivable")
}
pub fn ref_ed(seed: &[u8], p: &P) -> ed::XprvEd {
  ed::XprvEd::master(seed).walk(&p.0)
}

pub fn ref_pub(n: usize, seed: &[u8], p: &P) -> Vec<u8> {
  if n == 2 {
    ref_ed(seed, p).xpub()
  } else {
    secp::ser_full(&ref_secp(seed, p).point())
  }
}

/// public key from stored key data (bitcoin and ethereum: any extended key; cardano: 96 bytes)
pub fn ref_pub_stored(n: usize, data: &[u8], p: &P) -> Vec<u8> {
  if n == 2 {
    ed::XprvEd(data.to_vec()).walk(&p.0).xpub()
  } else {
    secp::ser_full(&xprv_of(data).walk(&p.0).expect("derivable").point())
  }
}

pub fn xprv_of(d: &[u8]) -> secp::Xprv {
  let mut x = secp::Xprv {
    key: [0; 32],
    cc: [0; 32],
    depth: d[0],
    index: u32::from_be_bytes([d[5], d[6], d[7], d[8]]),
    parent_fp: [d[1], d[2], d[3], d[4]]
  };
  x.cc.copy_from_slice(&d[9..41]);
  x.key.copy_from_slice(&d[41..73]);
  x
}

/// a key loaded straight from a seed, without encryption
pub fn key_of(n: usize, seed: &[u8]) -> Result<Box<dyn Key>, String> {
  let f = factory(n);
  let d = f.key_data_from_seed(seed).map_err(|e| format!("key data from a 64-byte seed refused: {}", e))?;
  f.key_from_data(&d).map_err(|e| format!("own key data refused: {}", e))
}

pub fn err_kind(e: &Error) -> &'static str {
  match e {
    Error::WrongPassword => "WrongPassword",
    Error::NotEnoughData => "NotEnoughData",
    Error::SeedIsNotSaved => "SeedIsNotSaved",
    Error::CantCalculateSeedSize(_, _) => "CantCalculateSeedSize",
    Error::InvalidSeedSize(_) => "InvalidSeedSize",
    Error::KeyDoesNotExist(_) => "KeyDoesNotExist",
    Error::KeyAlreadyExist(_) => "KeyAlreadyExist",
    Error::NetworkIsNotSupported(_) => "NetworkIsNotSupported",
    Error::DataError(_) => "DataError",
    Error::KeyError(_, _) => "KeyError",
    Error::MnemonicError(_) => "MnemonicError",
    Error::KeyPathError(_) => "KeyPathError"
  }
}

/// does the text contain this decimal number as a whole number
pub fn has_number(t: &str, n: u64) -> bool {
  let n = n.to_string();
  t.split(|c: char| !c.is_ascii_digit()).any(|x| x == n)
}

// ---- stored wallet format, independent reader and writer ----

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plain {
  pub version: u64,
  pub seed: Option<Vec<u8>>,
  pub mnemonic: Option<String>,
  pub lang: Option<usize>,
  pub keys: BTreeMap<u32, Vec<u8>>
}

pub fn read_plain(b: &[u8]) -> Result<Plain, String> {
  let o = json::parse(b).ok_or("outer layer is not JSON")?;
  let version = o.get("version").and_then(|v| v.u64()).ok_or("no version number")?;
  let inner = o.get("data").and_then(|d| d.str()).and_then(b64::decode).ok_or("no base64 data")?;
  let i = json::parse(&inner).ok_or("inner layer is not JSON")?;
  let mut p = Plain { version, ..Default::default() };
  if version == 2 {
    p.seed = match i.get("seed") {
      Some(J::Null) => None,
      Some(J::Str(s)) => Some(b64::decode(s).ok_or("seed is not base64")?),
      _ => return Err("no seed field".into())
    };
    p.mnemonic = match i.get("mnemonic") {
      Some(J::Null) => None,
      Some(J::Str(s)) => Some(s.clone()),
      _ => return Err("no mnemonic field".into())
    };
    p.lang = match i.get("dictionary") {
      Some(J::Null) => None,
      Some(J::Str(s)) => Some(LANG_STORED.iter().position(|x| x == s).ok_or("unknown dictionary name")?),
      _ => return Err("no dictionary field".into())
    };
  } else if version != 1 {
    return Err(format!("version {}", version));
  }
  for k in i.get("keys").and_then(|k| k.arr()).ok_or("no keys")? {
    let a = k.arr().ok_or("key is not a pair")?;
    if a.len() != 2 {
      return Err("key is not a pair".into());
    }
    let n = a[0].u64().ok_or("no network number")?;
    let d = a[1].str().and_then(b64::decode).ok_or("key is not base64")?;
    if n > 0xffff_ffff || p.keys.insert(n as u32, d).is_some() {
      return Err("network number repeated or too large".into());
    }
  }
  Ok(p)
}

pub fn read_blob(blob: &[u8], pass: &str) -> Result<Plain, String> {
  let p = aead::envelope_open(blob, pass).ok_or("an independent reader cannot decrypt it")?;
  read_plain(&p)
}

pub fn inner_json(p: &Plain) -> J {
  let keys = J::Arr(p.keys.iter().map(|(n, d)| J::Arr(vec![J::n(n), J::s(&b64::encode(d))])).collect());
  if p.version == 1 {
    J::Obj(vec![("keys".into(), keys)])
  } else {
    let opt = |x: Option<String>| x.map_or(J::Null, |s| J::s(&s));
    J::Obj(vec![
      ("seed".into(), opt(p.seed.as_ref().map(|s| b64::encode(s)))),
      ("mnemonic".into(), opt(p.mnemonic.clone())),
      ("dictionary".into(), opt(p.lang.map(|l| LANG_STORED[l].to_string()))),
      ("keys".into(), keys)
    ])
  }
}

pub fn write_plain(p: &Plain) -> Vec<u8> {
  J::Obj(vec![
    ("version".into(), J::n(p.version)),
    ("data".into(), J::s(&b64::encode(inner_json(p).write().as_bytes())))
  ])
  .write()
  .into_bytes()
}

pub fn write_blob(s: &mut Src, plain: &[u8], pass: &str) -> Vec<u8> {
  let salt = s.rand_n(32);
  let nonce = s.rand_n(12);
  aead::envelope_seal(plain, pass, &salt, &nonce)
}

/// run `f`, turning a panic of the code under test into an error message (a violation)
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    .map_err(|_| format!("{}: {}", what, take_panic().unwrap_or_else(|| "panicked".into())))
}

pub fn show(b: &[u8]) -> String {
  if b.len() > 80 {
    format!("{}.. ({} bytes)", hex(&b[..64]), b.len())
  } else {
    hex(b)
  }
}

pub fn sorted_nets(k: &Keychain) -> Vec<u32> {
  let mut v: Vec<u32> = k.networks().into_iter().map(|n| n.0).collect();
  v.sort();
  v
}

pub fn generic(t: &str) -> Result<GenericKeyPath, String> {
  GenericKeyPath::from(t).map_err(|e| format!("{}", e))
}
