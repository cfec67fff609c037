//! 256-bit integers and arithmetic modulo m = 2^256 - c by folding.

pub type U = [u64; 4]; // little endian limbs

pub const ZERO: U = [0; 4];
pub const ONE: U = [1, 0, 0, 0];

pub fn from_be(b: &[u8]) -> U {
  let mut r = ZERO;
  for i in 0..32 {
    r[3 - i / 8] |= (b[i] as u64) << (8 * (7 - i % 8));
  }
  r
}
pub fn to_be(u: &U) -> [u8; 32] {
  let mut o = [0u8; 32];
  for i in 0..4 {
    o[8 * i..8 * i + 8].copy_from_slice(&u[3 - i].to_be_bytes());
  }
  o
}
pub fn from_le(b: &[u8]) -> U {
  let mut r = ZERO;
  for i in 0..32 {
    r[i / 8] |= (b[i] as u64) << (8 * (i % 8));
  }
  r
}
pub fn to_le(u: &U) -> [u8; 32] {
  let mut o = to_be(u);
  o.reverse();
  o
}
pub fn is_zero(a: &U) -> bool {
  *a == ZERO
}
pub fn cmp(a: &U, b: &U) -> std::cmp::Ordering {
  for i in (0..4).rev() {
    if a[i] != b[i] {
      return a[i].cmp(&b[i]);
    }
  }
  std::cmp::Ordering::Equal
}
pub fn ge(a: &U, b: &U) -> bool {
  cmp(a, b) != std::cmp::Ordering::Less
}
pub fn add(a: &U, b: &U) -> (U, bool) {
  let mut r = ZERO;
  let mut c = 0u128;
  for i in 0..4 {
    let v = a[i] as u128 + b[i] as u128 + c;
    r[i] = v as u64;
    c = v >> 64;
  }
  (r, c != 0)
}
pub fn sub(a: &U, b: &U) -> (U, bool) {
  let mut r = ZERO;
  let mut br = false;
  for i in 0..4 {
    let (x, b1) = a[i].overflowing_sub(b[i]);
    let (y, b2) = x.overflowing_sub(br as u64);
    r[i] = y;
    br = b1 || b2;
  }
  (r, br)
}
pub fn bit(a: &U, i: usize) -> bool {
  (a[i / 64] >> (i % 64)) & 1 == 1
}
pub fn mul_wide(a: &U, b: &U) -> [u64; 8] {
  let mut r = [0u64; 8];
  for i in 0..4 {
    let mut c = 0u128;
    for j in 0..4 {
      let v = r[i + j] as u128 + (a[i] as u128) * (b[j] as u128) + c;
      r[i + j] = v as u64;
      c = v >> 64;
    }
    r[i + 4] = c as u64;
  }
  r
}

/// arithmetic modulo m, where c = 2^256 - m is well below 2^192
pub struct Mod {
  pub m: U,
  pub c: U
}

impl Mod {
  pub fn new(m: U) -> Self {
    let (c, _) = sub(&ZERO, &m);
    Mod { m, c }
  }
  pub fn red(&self, a: &U) -> U {
    let mut x = *a;
    while ge(&x, &self.m) {
      x = sub(&x, &self.m).0;
    }
    x
  }
  pub fn reduce_wide(&self, w: &[u64; 8]) -> U {
    let mut w = *w;
    while w[4..].iter().any(|x| *x != 0) {
      let hi = [w[4], w[5], w[6], w[7]];
      let lo = [w[0], w[1], w[2], w[3]];
      let p = mul_wide(&hi, &self.c);
      let mut r = p;
      let mut c = 0u128;
      for i in 0..8 {
        let v = r[i] as u128 + if i < 4 { lo[i] as u128 } else { 0 } + c;
        r[i] = v as u64;
        c = v >> 64;
      }
      w = r;
    }
    self.red(&[w[0], w[1], w[2], w[3]])
  }
  pub fn mul(&self, a: &U, b: &U) -> U {
    self.reduce_wide(&mul_wide(a, b))
  }
  pub fn sqr(&self, a: &U) -> U {
    self.mul(a, a)
  }
  pub fn add(&self, a: &U, b: &U) -> U {
    let (r, c) = add(a, b);
    if c {
      let (r, c2) = add(&r, &self.c);
      debug_assert!(!c2);
      self.red(&r)
    } else {
      self.red(&r)
    }
  }
  pub fn sub(&self, a: &U, b: &U) -> U {
    let (r, br) = sub(a, b);
    if br {
      add(&r, &self.m).0
    } else {
      r
    }
  }
  pub fn neg(&self, a: &U) -> U {
    self.sub(&ZERO, a)
  }
  pub fn pow(&self, a: &U, e: &U) -> U {
    let mut r = ONE;
    for i in (0..256).rev() {
      r = self.sqr(&r);
      if bit(e, i) {
        r = self.mul(&r, a);
      }
    }
    r
  }
}

/// remainder of a 512-bit value by a modulus of at most 255 bits, by binary long division
pub fn rem_wide(w: &[u64; 8], m: &U) -> U {
  let mut r = ZERO;
  for i in (0..512).rev() {
    let b = (w[i / 64] >> (i % 64)) & 1;
    r = [r[0] << 1 | b, r[1] << 1 | r[0] >> 63, r[2] << 1 | r[1] >> 63, r[3] << 1 | r[2] >> 63];
    if ge(&r, m) {
      r = sub(&r, m).0;
    }
  }
  r
}
