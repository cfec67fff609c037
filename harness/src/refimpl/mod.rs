//! Independent reference implementations (the oracles). Nothing here uses a crate.
pub mod aead;
pub mod b64;
pub mod bip39;
pub mod ed;
pub mod hash;
pub mod json;
pub mod secp;
pub mod selftest;
pub mod u256;

pub fn hex(b: &[u8]) -> String {
  let mut s = String::with_capacity(b.len() * 2);
  for x in b {
    s.push(std::char::from_digit((x >> 4) as u32, 16).unwrap());
    s.push(std::char::from_digit((x & 15) as u32, 16).unwrap());
  }
  s
}

pub fn unhex(s: &str) -> Vec<u8> {
  let d: Vec<u8> = s.chars().filter_map(|c| c.to_digit(16)).map(|x| x as u8).collect();
  d.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}
