//! ChaCha20-Poly1305 (RFC 8439) and the wallet's password envelope, written from the RFC.

use super::hash::pbkdf2_sha512;

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
  s[a] = s[a].wrapping_add(s[b]);
  s[d] = (s[d] ^ s[a]).rotate_left(16);
  s[c] = s[c].wrapping_add(s[d]);
  s[b] = (s[b] ^ s[c]).rotate_left(12);
  s[a] = s[a].wrapping_add(s[b]);
  s[d] = (s[d] ^ s[a]).rotate_left(8);
  s[c] = s[c].wrapping_add(s[d]);
  s[b] = (s[b] ^ s[c]).rotate_left(7);
}

fn block(key: &[u8], nonce: &[u8], counter: u32) -> [u8; 64] {
  let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
  let mut s = [0u32; 16];
  s[0] = 0x61707865;
  s[1] = 0x3320646e;
  s[2] = 0x79622d32;
  s[3] = 0x6b206574;
  for i in 0..8 {
    s[4 + i] = le(&key[4 * i..]);
  }
  s[12] = counter;
  for i in 0..3 {
    s[13 + i] = le(&nonce[4 * i..]);
  }
  let init = s;
  for _ in 0..10 {
    qr(&mut s, 0, 4, 8, 12);
    qr(&mut s, 1, 5, 9, 13);
    qr(&mut s, 2, 6, 10, 14);
    qr(&mut s, 3, 7, 11, 15);
    qr(&mut s, 0, 5, 10, 15);
    qr(&mut s, 1, 6, 11, 12);
    qr(&mut s, 2, 7, 8, 13);
    qr(&mut s, 3, 4, 9, 14);
  }
  let mut out = [0u8; 64];
  for i in 0..16 {
    out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(init[i]).to_le_bytes());
  }
  out
}

fn xor_stream(key: &[u8], nonce: &[u8], data: &[u8]) -> Vec<u8> {
  let mut out = Vec::with_capacity(data.len());
  for (i, c) in data.chunks(64).enumerate() {
    let b = block(key, nonce, 1 + i as u32);
    out.extend(c.iter().zip(b.iter()).map(|(x, y)| x ^ y));
  }
  out
}

pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
  let rd = |b: &[u8], n: usize| -> u128 {
    let mut v = 0u128;
    for i in 0..n {
      v |= (b[i] as u128) << (8 * i);
    }
    v
  };
  let r = rd(&key[0..16], 16) & 0x0ffffffc0ffffffc0ffffffc0fffffff;
  let s = rd(&key[16..32], 16);
  // 26-bit limbs
  let m26 = 0x3ffffffu64;
  let rl: Vec<u64> = (0..5).map(|i| ((r >> (26 * i)) as u64) & m26).collect();
  let mut h = [0u64; 5];
  for c in msg.chunks(16) {
    let lo = rd(c, c.len());
    let top = c.len() * 8; // position of the extra 1 bit
    let mut n = [0u64; 5];
    for i in 0..5 {
      n[i] = ((lo >> (26 * i)) as u64) & m26;
    }
    n[top / 26] |= 1u64 << (top % 26);
    for i in 0..5 {
      h[i] += n[i];
    }
    let mut d = [0u128; 5];
    for i in 0..5 {
      for j in 0..5 {
        let k = i + j;
        let f = if k >= 5 { 5 } else { 1 };
        d[k % 5] += (h[i] as u128) * (rl[j] as u128) * f;
      }
    }
    let mut carry = 0u128;
    for i in 0..5 {
      let v = d[i] + carry;
      h[i] = (v as u64) & m26;
      carry = v >> 26;
    }
    let mut c2 = carry * 5;
    let mut i = 0;
    while c2 > 0 {
      let v = h[i] as u128 + c2;
      h[i] = (v as u64) & m26;
      c2 = v >> 26;
      i += 1;
      if i == 5 {
        c2 *= 5;
        i = 0;
      }
    }
  }
  // canonical: subtract p = 2^130-5 while h >= p
  loop {
    let ge = h[4] == m26 && h[3] == m26 && h[2] == m26 && h[1] == m26 && h[0] >= m26 - 4;
    if !ge {
      break;
    }
    h = [h[0] - (m26 - 4), 0, 0, 0, 0];
  }
  let mut v = 0u128;
  for i in 0..5 {
    if 26 * i < 128 {
      v = v.wrapping_add((h[i] as u128) << (26 * i));
    }
  }
  v.wrapping_add(s).to_le_bytes()
}

fn tag(key: &[u8], nonce: &[u8], ct: &[u8]) -> [u8; 16] {
  let otk = block(key, nonce, 0);
  let mut m = ct.to_vec();
  while m.len() % 16 != 0 {
    m.push(0);
  }
  m.extend_from_slice(&0u64.to_le_bytes());
  m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
  poly1305(&otk[..32], &m)
}

/// (ciphertext, tag), empty associated data
pub fn seal(key: &[u8], nonce: &[u8], data: &[u8]) -> (Vec<u8>, [u8; 16]) {
  let ct = xor_stream(key, nonce, data);
  let t = tag(key, nonce, &ct);
  (ct, t)
}

pub fn open(key: &[u8], nonce: &[u8], ct: &[u8], t: &[u8]) -> Option<Vec<u8>> {
  if tag(key, nonce, ct)[..] != *t {
    return None;
  }
  Some(xor_stream(key, nonce, ct))
}

pub const META: usize = 60;

thread_local! {
  static KNOWN: std::cell::RefCell<Vec<(String, Vec<u8>, Vec<u8>)>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn kdf(password: &str, salt: &[u8]) -> Vec<u8> {
  let hit = KNOWN.with(|k| k.borrow().iter().find(|(p, s, _)| p == password && s == salt).map(|x| x.2.clone()));
  if let Some(k) = hit {
    return k;
  }
  let key = pbkdf2_sha512(password.as_bytes(), salt, 19162, 32);
  KNOWN.with(|k| {
    let mut k = k.borrow_mut();
    if k.len() >= 64 {
      k.remove(0);
    }
    k.push((password.to_string(), salt.to_vec(), key.clone()));
  });
  key
}

/// salt(32) nonce(12) tag(16) ciphertext
pub fn envelope_seal(data: &[u8], password: &str, salt: &[u8], nonce: &[u8]) -> Vec<u8> {
  let key = kdf(password, salt);
  let (ct, t) = seal(&key, nonce, data);
  let mut out = salt.to_vec();
  out.extend_from_slice(nonce);
  out.extend_from_slice(&t);
  out.extend_from_slice(&ct);
  out
}

pub fn envelope_open(blob: &[u8], password: &str) -> Option<Vec<u8>> {
  if blob.len() < META {
    return None;
  }
  let key = kdf(password, &blob[..32]);
  open(&key, &blob[32..44], &blob[60..], &blob[44..60])
}
