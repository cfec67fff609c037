//! Ed25519 group, extended-key signatures and BIP32-Ed25519 (V2) derivation, written from RFC 8032 and the paper.

use super::hash::*;
use super::u256::{self, Mod, U};

#[derive(Clone, Copy)]
pub struct Pt {
  x: U,
  y: U,
  z: U,
  t: U
}

pub struct Ed {
  q: Mod, // 2^256 - 38 = 2p: redundant arithmetic, reduced mod p at the end
  p: U,
  l: U,
  d: U,
  sqrtm1: U,
  pub b: Pt
}

fn small(n: u64) -> U {
  [n, 0, 0, 0]
}

pub fn ed() -> &'static Ed {
  use std::sync::OnceLock;
  static E: OnceLock<Ed> = OnceLock::new();
  E.get_or_init(|| {
    let p = u256::sub(&[0, 0, 0, 1 << 63], &small(19)).0;
    let q = Mod::new(u256::sub(&u256::ZERO, &small(38)).0);
    // L = 2^252 + 27742317777372353535851937790883648493
    let l = [0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000];
    let mut e = Ed {
      q,
      p,
      l,
      d: u256::ZERO,
      sqrtm1: u256::ZERO,
      b: Pt { x: u256::ZERO, y: u256::ONE, z: u256::ONE, t: u256::ZERO }
    };
    let num = e.q.neg(&small(121665));
    e.d = e.canon(&e.q.mul(&num, &e.inv(&small(121666))));
    // sqrt(-1) = 2^((p-1)/4)
    let pm1 = u256::sub(&p, &u256::ONE).0;
    let ex = shr(&pm1, 2);
    e.sqrtm1 = e.canon(&e.q.pow(&small(2), &ex));
    let y = e.canon(&e.q.mul(&small(4), &e.inv(&small(5))));
    let mut enc = u256::to_le(&y);
    enc[31] &= 0x7f;
    e.b = e.decompress(&enc).expect("base point");
    e
  })
}

fn shr(a: &U, n: u32) -> U {
  [a[0] >> n | a[1] << (64 - n), a[1] >> n | a[2] << (64 - n), a[2] >> n | a[3] << (64 - n), a[3] >> n]
}

impl Ed {
  fn canon(&self, a: &U) -> U {
    let mut x = *a;
    while u256::ge(&x, &self.p) {
      x = u256::sub(&x, &self.p).0;
    }
    x
  }
  fn inv(&self, a: &U) -> U {
    self.canon(&self.q.pow(a, &u256::sub(&self.p, &small(2)).0))
  }
  fn eq(&self, a: &U, b: &U) -> bool {
    self.canon(a) == self.canon(b)
  }
  pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
    let f = &self.q;
    let aa = f.mul(&f.sub(&a.y, &a.x), &f.sub(&b.y, &b.x));
    let bb = f.mul(&f.add(&a.y, &a.x), &f.add(&b.y, &b.x));
    let tt = f.mul(&a.t, &b.t);
    let c = f.mul(&f.add(&tt, &tt), &self.d);
    let zz = f.mul(&a.z, &b.z);
    let dd = f.add(&zz, &zz);
    let e = f.sub(&bb, &aa);
    let ff = f.sub(&dd, &c);
    let g = f.add(&dd, &c);
    let h = f.add(&bb, &aa);
    Pt { x: f.mul(&e, &ff), y: f.mul(&g, &h), z: f.mul(&ff, &g), t: f.mul(&e, &h) }
  }
  pub fn neg(&self, a: &Pt) -> Pt {
    Pt { x: self.q.neg(&a.x), y: a.y, z: a.z, t: self.q.neg(&a.t) }
  }
  pub fn mul(&self, p: &Pt, k: &U) -> Pt {
    let mut r = Pt { x: u256::ZERO, y: u256::ONE, z: u256::ONE, t: u256::ZERO };
    for i in (0..256).rev() {
      r = self.add(&r, &r);
      if u256::bit(k, i) {
        r = self.add(&r, p);
      }
    }
    r
  }
  pub fn compress(&self, p: &Pt) -> [u8; 32] {
    let zi = self.inv(&p.z);
    let x = self.canon(&self.q.mul(&p.x, &zi));
    let y = self.canon(&self.q.mul(&p.y, &zi));
    let mut o = u256::to_le(&y);
    o[31] |= ((x[0] & 1) as u8) << 7;
    o
  }
  pub fn decompress(&self, b: &[u8; 32]) -> Option<Pt> {
    let f = &self.q;
    let sign = b[31] >> 7;
    let mut yb = *b;
    yb[31] &= 0x7f;
    let y = u256::from_le(&yb);
    if u256::ge(&y, &self.p) {
      return None;
    }
    let y2 = f.sqr(&y);
    let u = f.sub(&y2, &u256::ONE);
    let v = f.add(&f.mul(&y2, &self.d), &u256::ONE);
    let x2 = f.mul(&u, &self.inv(&v));
    // x = x2^((p+3)/8)
    let e = shr(&u256::add(&self.p, &small(3)).0, 3);
    let mut x = f.pow(&x2, &e);
    if !self.eq(&f.sqr(&x), &x2) {
      x = f.mul(&x, &self.sqrtm1);
      if !self.eq(&f.sqr(&x), &x2) {
        return None;
      }
    }
    let mut x = self.canon(&x);
    if u256::is_zero(&x) && sign == 1 {
      return None;
    }
    if (x[0] & 1) as u8 != sign {
      x = u256::sub(&self.p, &x).0;
    }
    Some(Pt { x, y, z: u256::ONE, t: f.mul(&x, &y) })
  }
  fn sc_wide(&self, h: &[u8; 64]) -> U {
    let lo = u256::from_le(&h[..32]);
    let hi = u256::from_le(&h[32..]);
    u256::rem_wide(&[lo[0], lo[1], lo[2], lo[3], hi[0], hi[1], hi[2], hi[3]], &self.l)
  }
}

pub fn public(kl: &[u8]) -> [u8; 32] {
  let e = ed();
  e.compress(&e.mul(&e.b, &u256::from_le(kl)))
}

/// signature under an extended key (kl || kr)
pub fn sign(ext: &[u8], msg: &[u8]) -> [u8; 64] {
  sign_with(ext, &ext[32..64], msg)
}
/// the same with another source of the nonce, as good for any verifier
pub fn sign_with(ext: &[u8], prefix: &[u8], msg: &[u8]) -> [u8; 64] {
  let e = ed();
  let a = public(&ext[..32]);
  let mut b = prefix.to_vec();
  b.extend_from_slice(msg);
  let r = e.sc_wide(&sha512(&b));
  let rp = e.compress(&e.mul(&e.b, &r));
  let mut hb = rp.to_vec();
  hb.extend_from_slice(&a);
  hb.extend_from_slice(msg);
  let h = e.sc_wide(&sha512(&hb));
  let prod = u256::rem_wide(&u256::mul_wide(&h, &u256::from_le(&ext[..32])), &e.l);
  let (s, _) = u256::add(&prod, &r);
  let s = if u256::ge(&s, &e.l) { u256::sub(&s, &e.l).0 } else { s };
  let mut out = [0u8; 64];
  out[..32].copy_from_slice(&rp);
  out[32..].copy_from_slice(&u256::to_le(&s));
  out
}

pub fn verify(pk: &[u8; 32], msg: &[u8], sig: &[u8]) -> bool {
  let e = ed();
  let s = u256::from_le(&sig[32..64]);
  if u256::ge(&s, &e.l) {
    return false;
  }
  let a = match e.decompress(pk) {
    Some(a) => a,
    None => return false
  };
  let mut hb = sig[..32].to_vec();
  hb.extend_from_slice(pk);
  hb.extend_from_slice(msg);
  let h = e.sc_wide(&sha512(&hb));
  let r = e.add(&e.mul(&e.b, &s), &e.mul(&e.neg(&a), &h));
  e.compress(&r)[..] == sig[..32]
}

/// 96 bytes: kl, kr, chain code
#[derive(Clone, PartialEq, Debug)]
pub struct XprvEd(pub Vec<u8>);

impl XprvEd {
  /// the wallet's Cardano master key
  pub fn master(seed: &[u8]) -> XprvEd {
    let mut k = sha512(&seed[..32]).to_vec();
    k[0] &= 0xf8;
    k[31] &= 0x1f;
    k[31] |= 0x40;
    k.extend_from_slice(&seed[32..64]);
    XprvEd(k)
  }
  pub fn public(&self) -> [u8; 32] {
    public(&self.0[..32])
  }
  pub fn xpub(&self) -> Vec<u8> {
    let mut o = self.public().to_vec();
    o.extend_from_slice(&self.0[64..]);
    o
  }
  pub fn child(&self, index: u32) -> XprvEd {
    let cc = &self.0[64..96];
    let (mut zb, mut cb);
    if index >= 0x80000000 {
      zb = vec![0u8];
      cb = vec![1u8];
      zb.extend_from_slice(&self.0[..64]);
      cb.extend_from_slice(&self.0[..64]);
    } else {
      let a = self.public();
      zb = vec![2u8];
      cb = vec![3u8];
      zb.extend_from_slice(&a);
      cb.extend_from_slice(&a);
    }
    zb.extend_from_slice(&index.to_le_bytes());
    cb.extend_from_slice(&index.to_le_bytes());
    let z = hmac_sha512(cc, &zb);
    let c = hmac_sha512(cc, &cb);
    let mut zl8 = [0u8; 32];
    zl8[..28].copy_from_slice(&z[..28]);
    let zl = u256::from_le(&zl8);
    let zl = [zl[0] << 3, zl[1] << 3 | zl[0] >> 61, zl[2] << 3 | zl[1] >> 61, zl[3] << 3 | zl[2] >> 61];
    let kl = u256::add(&zl, &u256::from_le(&self.0[..32])).0;
    let kr = u256::add(&u256::from_le(&z[32..]), &u256::from_le(&self.0[32..64])).0;
    let mut o = u256::to_le(&kl).to_vec();
    o.extend_from_slice(&u256::to_le(&kr));
    o.extend_from_slice(&c[32..]);
    XprvEd(o)
  }
  pub fn walk(&self, path: &[u32]) -> XprvEd {
    let mut x = self.clone();
    for i in path {
      x = x.child(*i);
    }
    x
  }
}
