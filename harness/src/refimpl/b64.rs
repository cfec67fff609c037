//! RFC 4648 base64 with padding.
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn encode(data: &[u8]) -> String {
  let mut o = String::new();
  for c in data.chunks(3) {
    let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 {
      if i <= c.len() {
        o.push(A[(n >> (18 - 6 * i)) as usize & 63] as char);
      } else {
        o.push('=');
      }
    }
  }
  o
}

pub fn decode(s: &str) -> Option<Vec<u8>> {
  let b = s.as_bytes();
  if b.len() % 4 != 0 {
    return None;
  }
  let mut o = Vec::new();
  for (k, c) in b.chunks(4).enumerate() {
    let last = (k + 1) * 4 == b.len();
    let pad = if last { c.iter().rev().take_while(|x| **x == b'=').count() } else { 0 };
    if pad > 2 {
      return None;
    }
    let mut n = 0u32;
    for (i, x) in c.iter().enumerate() {
      let v = if i >= 4 - pad { 0 } else { A.iter().position(|a| a == x)? as u32 };
      n = n << 6 | v;
    }
    let by = [(n >> 16) as u8, (n >> 8) as u8, n as u8];
    o.extend_from_slice(&by[..3 - pad]);
  }
  Some(o)
}
