//! secp256k1: points, ECDSA verification and recovery, BIP-32. Written from SEC 1/SEC 2 and BIP-32.

use super::hash::*;
use super::u256::{self, Mod, U};

pub struct Curve {
  pub p: Mod,
  pub n: Mod,
  pub g: Aff
}

pub type Aff = Option<(U, U)>; // None = infinity

#[derive(Clone, Copy)]
struct Jac {
  x: U,
  y: U,
  z: U // zero = infinity
}

fn hexu(s: &str) -> U {
  let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
  u256::from_be(&b)
}

pub fn curve() -> &'static Curve {
  use std::sync::OnceLock;
  static C: OnceLock<Curve> = OnceLock::new();
  C.get_or_init(|| Curve {
    p: Mod::new(hexu("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")),
    n: Mod::new(hexu("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")),
    g: Some((
      hexu("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
      hexu("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
    ))
  })
}

impl Curve {
  fn dbl(&self, a: &Jac) -> Jac {
    let f = &self.p;
    if u256::is_zero(&a.z) || u256::is_zero(&a.y) {
      return Jac { x: u256::ONE, y: u256::ONE, z: u256::ZERO };
    }
    let y2 = f.sqr(&a.y);
    let xy = f.mul(&a.x, &y2);
    let s = f.add(&f.add(&xy, &xy), &f.add(&xy, &xy));
    let x2 = f.sqr(&a.x);
    let m = f.add(&f.add(&x2, &x2), &x2);
    let x3 = f.sub(&f.sqr(&m), &f.add(&s, &s));
    let y4 = f.sqr(&y2);
    let y4_2 = f.add(&y4, &y4);
    let y4_4 = f.add(&y4_2, &y4_2);
    let y4_8 = f.add(&y4_4, &y4_4);
    let y3 = f.sub(&f.mul(&m, &f.sub(&s, &x3)), &y4_8);
    let yz = f.mul(&a.y, &a.z);
    Jac { x: x3, y: y3, z: f.add(&yz, &yz) }
  }
  fn add_aff(&self, a: &Jac, b: &(U, U)) -> Jac {
    let f = &self.p;
    if u256::is_zero(&a.z) {
      return Jac { x: b.0, y: b.1, z: u256::ONE };
    }
    let z2 = f.sqr(&a.z);
    let u2 = f.mul(&b.0, &z2);
    let s2 = f.mul(&b.1, &f.mul(&z2, &a.z));
    let h = f.sub(&u2, &a.x);
    let r = f.sub(&s2, &a.y);
    if u256::is_zero(&h) {
      if u256::is_zero(&r) {
        return self.dbl(a);
      }
      return Jac { x: u256::ONE, y: u256::ONE, z: u256::ZERO };
    }
    let h2 = f.sqr(&h);
    let h3 = f.mul(&h2, &h);
    let xh2 = f.mul(&a.x, &h2);
    let x3 = f.sub(&f.sub(&f.sqr(&r), &h3), &f.add(&xh2, &xh2));
    let y3 = f.sub(&f.mul(&r, &f.sub(&xh2, &x3)), &f.mul(&a.y, &h3));
    Jac { x: x3, y: y3, z: f.mul(&a.z, &h) }
  }
  fn to_aff(&self, a: &Jac) -> Aff {
    if u256::is_zero(&a.z) {
      return None;
    }
    let f = &self.p;
    let e = u256::sub(&f.m, &[2, 0, 0, 0]).0;
    let zi = f.pow(&a.z, &e);
    let zi2 = f.sqr(&zi);
    Some((f.mul(&a.x, &zi2), f.mul(&a.y, &f.mul(&zi2, &zi))))
  }
  pub fn mul(&self, p: &Aff, k: &U) -> Aff {
    let q = match p {
      None => return None,
      Some(q) => q
    };
    let mut r = Jac { x: u256::ONE, y: u256::ONE, z: u256::ZERO };
    for i in (0..256).rev() {
      r = self.dbl(&r);
      if u256::bit(k, i) {
        r = self.add_aff(&r, q);
      }
    }
    self.to_aff(&r)
  }
  pub fn add(&self, a: &Aff, b: &Aff) -> Aff {
    match (a, b) {
      (None, x) => *x,
      (x, None) => *x,
      (Some(p), Some(q)) => self.to_aff(&self.add_aff(&Jac { x: p.0, y: p.1, z: u256::ONE }, q))
    }
  }
  pub fn inv_n(&self, a: &U) -> U {
    self.n.pow(a, &u256::sub(&self.n.m, &[2, 0, 0, 0]).0)
  }
  pub fn on_curve(&self, p: &(U, U)) -> bool {
    let f = &self.p;
    let rhs = f.add(&f.mul(&f.sqr(&p.0), &p.0), &[7, 0, 0, 0]);
    f.sqr(&p.1) == rhs
  }
  pub fn lift_x(&self, x: &U, odd: bool) -> Aff {
    let f = &self.p;
    if u256::ge(x, &f.m) {
      return None;
    }
    let rhs = f.add(&f.mul(&f.sqr(x), x), &[7, 0, 0, 0]);
    // p = 3 mod 4
    let (e1, _) = u256::add(&f.m, &u256::ONE);
    let e = [e1[0] >> 2 | e1[1] << 62, e1[1] >> 2 | e1[2] << 62, e1[2] >> 2 | e1[3] << 62, e1[3] >> 2];
    let y = f.pow(&rhs, &e);
    if f.sqr(&y) != rhs {
      return None;
    }
    let y = if (y[0] & 1 == 1) == odd { y } else { f.neg(&y) };
    Some((*x, y))
  }
}

pub fn ser_full(p: &(U, U)) -> Vec<u8> {
  let mut o = vec![4u8];
  o.extend_from_slice(&u256::to_be(&p.0));
  o.extend_from_slice(&u256::to_be(&p.1));
  o
}
pub fn ser_comp(p: &(U, U)) -> Vec<u8> {
  let mut o = vec![2u8 + (p.1[0] & 1) as u8];
  o.extend_from_slice(&u256::to_be(&p.0));
  o
}
pub fn parse_full(b: &[u8]) -> Aff {
  if b.len() != 65 || b[0] != 4 {
    return None;
  }
  let p = (u256::from_be(&b[1..33]), u256::from_be(&b[33..65]));
  let c = curve();
  if u256::ge(&p.0, &c.p.m) || u256::ge(&p.1, &c.p.m) || !c.on_curve(&p) {
    return None;
  }
  Some(p)
}

pub fn ecdsa_verify(msg32: &[u8; 32], rs: &[u8], pk: &Aff) -> bool {
  let c = curve();
  let r = u256::from_be(&rs[0..32]);
  let s = u256::from_be(&rs[32..64]);
  if u256::is_zero(&r) || u256::is_zero(&s) || u256::ge(&r, &c.n.m) || u256::ge(&s, &c.n.m) {
    return false;
  }
  let z = c.n.red(&u256::from_be(msg32));
  let w = c.inv_n(&s);
  let u1 = c.n.mul(&z, &w);
  let u2 = c.n.mul(&r, &w);
  match c.add(&c.mul(&c.g, &u1), &c.mul(pk, &u2)) {
    None => false,
    Some((x, _)) => c.n.red(&x) == r
  }
}

/// signature with the given nonce in low-s form, with its recovery byte; None when the nonce does not serve
pub fn ecdsa_sign(msg32: &[u8; 32], key: &[u8], nonce: &[u8]) -> Option<Vec<u8>> {
  let c = curve();
  let k = u256::from_be(nonce);
  if u256::is_zero(&k) || u256::ge(&k, &c.n.m) {
    return None;
  }
  let (x, y) = c.mul(&c.g, &k)?;
  let r = c.n.red(&x);
  if u256::is_zero(&r) || r != x {
    return None;
  }
  let z = c.n.red(&u256::from_be(msg32));
  let mut s = c.n.mul(&c.inv_n(&k), &c.n.add(&z, &c.n.mul(&r, &u256::from_be(key))));
  if u256::is_zero(&s) {
    return None;
  }
  let mut rec = (y[0] & 1) as u8;
  if !is_low_s(&u256::to_be(&s)) {
    s = c.n.neg(&s);
    rec ^= 1;
  }
  let mut o = u256::to_be(&r).to_vec();
  o.extend_from_slice(&u256::to_be(&s));
  o.push(rec);
  Some(o)
}

pub fn ecdsa_recover(msg32: &[u8; 32], rs: &[u8], rec: u8) -> Aff {
  let c = curve();
  let r = u256::from_be(&rs[0..32]);
  let s = u256::from_be(&rs[32..64]);
  if u256::is_zero(&r) || u256::is_zero(&s) || u256::ge(&r, &c.n.m) || u256::ge(&s, &c.n.m) || rec > 3 {
    return None;
  }
  let mut x = r;
  if rec & 2 != 0 {
    let (y, carry) = u256::add(&r, &c.n.m);
    if carry {
      return None;
    }
    x = y;
  }
  let rp = c.lift_x(&x, rec & 1 == 1);
  rp?;
  let z = c.n.red(&u256::from_be(msg32));
  let ri = c.inv_n(&r);
  let u1 = c.n.neg(&c.n.mul(&z, &ri));
  let u2 = c.n.mul(&s, &ri);
  c.add(&c.mul(&c.g, &u1), &c.mul(&rp, &u2))
}

pub fn is_low_s(s: &[u8]) -> bool {
  let c = curve();
  let n = &c.n.m;
  let half = [n[0] >> 1 | n[1] << 63, n[1] >> 1 | n[2] << 63, n[2] >> 1 | n[3] << 63, n[3] >> 1];
  !matches!(u256::cmp(&u256::from_be(s), &half), std::cmp::Ordering::Greater)
}

/// BIP-32 extended private key
#[derive(Clone, PartialEq, Debug)]
pub struct Xprv {
  pub key: [u8; 32],
  pub cc: [u8; 32],
  pub depth: u8,
  pub index: u32,
  pub parent_fp: [u8; 4]
}

impl Xprv {
  pub fn master(seed: &[u8]) -> Option<Xprv> {
    let i = hmac_sha512(b"Bitcoin seed", seed);
    let mut key = [0u8; 32];
    let mut cc = [0u8; 32];
    key.copy_from_slice(&i[..32]);
    cc.copy_from_slice(&i[32..]);
    let k = u256::from_be(&key);
    if u256::is_zero(&k) || u256::ge(&k, &curve().n.m) {
      return None;
    }
    Some(Xprv { key, cc, depth: 0, index: 0, parent_fp: [0; 4] })
  }
  pub fn point(&self) -> (U, U) {
    let c = curve();
    c.mul(&c.g, &u256::from_be(&self.key)).expect("scalar in range")
  }
  /// None: depth exhausted, or the 2^-127 invalid child
  pub fn child(&self, index: u32) -> Option<Xprv> {
    if self.depth == 255 {
      return None;
    }
    let c = curve();
    let pubc = ser_comp(&self.point());
    let mut d = Vec::new();
    if index >= 0x80000000 {
      d.push(0);
      d.extend_from_slice(&self.key);
    } else {
      d.extend_from_slice(&pubc);
    }
    d.extend_from_slice(&index.to_be_bytes());
    let i = hmac_sha512(&self.cc, &d);
    let il = u256::from_be(&i[..32]);
    if u256::ge(&il, &c.n.m) {
      return None;
    }
    let k = c.n.add(&il, &u256::from_be(&self.key));
    if u256::is_zero(&k) {
      return None;
    }
    let mut cc = [0u8; 32];
    cc.copy_from_slice(&i[32..]);
    let fp = ripemd160(&sha256(&pubc));
    Some(Xprv { key: u256::to_be(&k), cc, depth: self.depth + 1, index, parent_fp: [fp[0], fp[1], fp[2], fp[3]] })
  }
  pub fn walk(&self, path: &[u32]) -> Option<Xprv> {
    let mut x = self.clone();
    for i in path {
      x = x.child(*i)?;
    }
    Some(x)
  }
  /// the library's stored form: depth, fingerprint, index, chain code, key, 4 bytes of double SHA-256
  pub fn stored(&self) -> Vec<u8> {
    let mut d = vec![self.depth];
    d.extend_from_slice(&self.parent_fp);
    d.extend_from_slice(&self.index.to_be_bytes());
    d.extend_from_slice(&self.cc);
    d.extend_from_slice(&self.key);
    with_checksum(&d)
  }
}

pub fn with_checksum(body: &[u8]) -> Vec<u8> {
  let mut d = body.to_vec();
  let h = sha256(&sha256(body));
  d.extend_from_slice(&h[..4]);
  d
}
