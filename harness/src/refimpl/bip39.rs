//! BIP-39 from its text: entropy || SHA-256 prefix, cut into 11-bit numbers.

use super::hash::*;
use std::collections::HashMap;
use std::sync::OnceLock;

/// order = the wallet library's Language numbering
pub const NAMES: [&str; 8] =
  ["english", "french", "japanese", "korean", "chinese-simplified", "chinese-traditional", "italian", "spanish"];

const RAW: [&str; 8] = [
  include_str!("../../wordlists/english.txt"),
  include_str!("../../wordlists/french.txt"),
  include_str!("../../wordlists/japanese.txt"),
  include_str!("../../wordlists/korean.txt"),
  include_str!("../../wordlists/chinese_simplified.txt"),
  include_str!("../../wordlists/chinese_traditional.txt"),
  include_str!("../../wordlists/italian.txt"),
  include_str!("../../wordlists/spanish.txt")
];

/// SHA-256 of the files published with BIP-39
pub const PUBLISHED: [&str; 8] = [
  "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda",
  "ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59",
  "2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd",
  "9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60",
  "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726",
  "417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f",
  "d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2",
  "46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b"
];

pub const SIZES: [usize; 6] = [12, 16, 20, 24, 28, 32]; // bytes of entropy
pub const COUNTS: [usize; 6] = [9, 12, 15, 18, 21, 24]; // words

pub fn raw(lang: usize) -> &'static str {
  RAW[lang]
}

pub fn words(lang: usize) -> &'static Vec<&'static str> {
  static W: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
  &W.get_or_init(|| RAW.iter().map(|r| r.split('\n').filter(|w| !w.is_empty()).collect()).collect())[lang]
}

pub fn index(lang: usize, w: &str) -> Option<u16> {
  static I: OnceLock<Vec<HashMap<&'static str, u16>>> = OnceLock::new();
  I.get_or_init(|| (0..8).map(|l| words(l).iter().enumerate().map(|(i, w)| (*w, i as u16)).collect()).collect())[lang]
    .get(w)
    .copied()
}

pub fn checksum(ent: &[u8]) -> u8 {
  sha256(ent)[0] >> (8 - ent.len() / 4)
}

pub fn encode(ent: &[u8]) -> Vec<u16> {
  let cs = ent.len() / 4;
  let mut bits: Vec<u8> = Vec::new();
  for b in ent {
    for i in (0..8).rev() {
      bits.push(b >> i & 1);
    }
  }
  let c = checksum(ent);
  for i in (0..cs).rev() {
    bits.push(c >> i & 1);
  }
  bits.chunks(11).map(|c| c.iter().fold(0u16, |a, b| a << 1 | *b as u16)).collect()
}

pub fn phrase(lang: usize, idx: &[u16]) -> String {
  idx.iter().map(|i| words(lang)[*i as usize]).collect::<Vec<_>>().join(" ")
}

#[derive(Debug, PartialEq, Clone)]
pub enum Bad {
  Count(usize),
  Word(String),
  /// (checksum of the decoded entropy, checksum in the phrase)
  Checksum(u8, u8)
}

/// word indices of a text, first unknown word first, then the count
pub fn parse(lang: usize, text: &str) -> Result<Vec<u16>, Bad> {
  let mut v = Vec::new();
  for w in text.split(' ') {
    match index(lang, w) {
      Some(i) => v.push(i),
      None => return Err(Bad::Word(w.to_string()))
    }
  }
  if !COUNTS.contains(&v.len()) {
    return Err(Bad::Count(v.len()));
  }
  Ok(v)
}

pub fn decode(idx: &[u16]) -> Result<Vec<u8>, Bad> {
  if !COUNTS.contains(&idx.len()) {
    return Err(Bad::Count(idx.len()));
  }
  let mut bits: Vec<u8> = Vec::new();
  for n in idx {
    for i in (0..11).rev() {
      bits.push((n >> i & 1) as u8);
    }
  }
  let cs = idx.len() / 3;
  let ent: Vec<u8> =
    bits[..bits.len() - cs].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | b)).collect();
  let got = bits[bits.len() - cs..].iter().fold(0u8, |a, b| a << 1 | b);
  let want = checksum(&ent);
  if got != want {
    return Err(Bad::Checksum(want, got));
  }
  Ok(ent)
}

pub fn seed(text: &str, pass: &[u8]) -> Vec<u8> {
  let mut salt = b"mnemonic".to_vec();
  salt.extend_from_slice(pass);
  pbkdf2_sha512(text.as_bytes(), &salt, 2048, 64)
}
