use crate::common::*;
use crate::engine::*;
use crate::refimpl::{hash, secp, u256};
use bip39::Seed;
use secp256k1_bip32::{KeyError, XPrv};

pub fn same(what: &str, got: &XPrv, want: &secp::Xprv) -> Result<(), String> {
  let w = want.stored();
  let g = got.serialize();
  check!(g == w, "{}: extended key {} instead of {}", what, hex(&g), hex(&w));
  let p = want.point();
  let (full, comp) = (secp::ser_full(&p), secp::ser_comp(&p));
  let x = got.public();
  check!(x.serialize() == full, "{}: public key {} instead of {}", what, hex(&x.serialize()), hex(&full));
  check!(x.serialize_compressed() == comp, "{}: compressed {} instead of {}", what, hex(&x.serialize_compressed()), hex(&comp));
  check!(x.sha256() == hash::sha256(&full) && x.compressed_sha256() == hash::sha256(&comp), "{}: hash of the public key differs", what);
  Ok(())
}

fn order_minus(k: u64) -> [u8; 32] {
  u256::to_be(&u256::sub(&secp::curve().n.m, &[k, 0, 0, 0]).0)
}

/// scalars with structure: small, near the order, leading zeros
pub fn gen_scalar(s: &mut Src) -> [u8; 32] {
  let mut k = [0u8; 32];
  match s.weighted(&[3, 1, 1, 2]) {
    0 => k.copy_from_slice(&s.rand_n(32)),
    1 => k[24..].copy_from_slice(&s.range(1, 1 << 40).to_be_bytes()),
    2 => return order_minus(s.range(1, 300)),
    _ => {
      let z = s.range(1, 31) as usize;
      k[z..].copy_from_slice(&s.rand_n(32 - z));
    }
  }
  let u = u256::from_be(&k);
  if u256::is_zero(&u) || u256::ge(&u, &secp::curve().n.m) {
    k = [0u8; 32];
    k[31] = 1;
  }
  k
}

pub fn gen_xprv(s: &mut Src) -> secp::Xprv {
  let key = gen_scalar(s);
  let mut cc = [0u8; 32];
  cc.copy_from_slice(&s.bytes_n(32));
  let mut fp = [0u8; 4];
  fp.copy_from_slice(&s.bytes_n(4));
  secp::Xprv { key, cc, depth: s.u8(), index: s.u32_any(), parent_fp: fp }
}

fn walk(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let (x, r) = if s.chance(1, 2) {
    let seed = gen_seed(s);
    cx.note(|| format!("seed {}", hex(&seed)));
    let x = XPrv::from_seed(&Seed::from_slice(&seed).map_err(|e| format!("{}", e))?).map_err(|e| format!("seed refused: {}", e))?;
    (x, secp::Xprv::master(&seed).expect("valid master"))
  } else {
    let r = gen_xprv(s);
    cx.note(|| format!("extended key {}", hex(&r.stored())));
    let x = XPrv::from_data(&r.stored()).map_err(|e| format!("valid extended key refused: {}", e))?;
    (x, r)
  };
  same("start", &x, &r)?;
  let n = s.range(0, 6);
  if n > 0 {
    cx.nt();
  }
  let (mut x, mut r) = (x, r);
  for step in 0..n {
    let i = s.u32_any();
    cx.label(if i >= HARD { "hardened" } else { "soft" });
    cx.note(|| format!("child {}", i));
    match (x.derive(i), r.child(i)) {
      (Ok(a), Some(b)) => {
        same(&format!("after step {} (child {})", step, i), &a, &b)?;
        check!(x.serialize() == r.stored(), "deriving changed the parent");
        if s.chance(1, 4) {
          // a sibling from the same parent
          let j = s.u32_any();
          match (x.derive(j), r.child(j)) {
            (Ok(c), Some(d)) => same(&format!("sibling {}", j), &c, &d)?,
            _ => bail!("sibling {} refused", j)
          }
        }
        x = a;
        r = b;
      }
      (Err(e), None) => {
        cx.label("depth limit");
        check!(matches!(e, KeyError::DeriveDepthTooBig), "past depth 255: {}", e);
        return Ok(());
      }
      (Ok(a), None) => bail!("child of a depth-{} key exists, depth byte {}", r.depth, a.serialize()[0]),
      (Err(e), Some(_)) => bail!("child {} of a depth-{} key refused: {}", i, r.depth, e)
    }
  }
  Ok(())
}

fn deep(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut r = gen_xprv(s);
  r.depth = s.range(180, 255) as u8;
  cx.nt();
  cx.note(|| format!("to the depth limit from {}", hex(&r.stored())));
  let mut x = XPrv::from_data(&r.stored()).map_err(|e| format!("{}", e))?;
  let soft = s.bool();
  loop {
    let i = if soft { s.u32_any() } else { s.u32_any() | HARD };
    match (x.derive(i), r.child(i)) {
      (Ok(a), Some(b)) => {
        check!(a.serialize() == b.stored(), "child {} at depth {}: {} instead of {}", i, b.depth, hex(&a.serialize()), hex(&b.stored()));
        x = a;
        r = b;
      }
      (Err(KeyError::DeriveDepthTooBig), None) => {
        check!(r.depth == 255, "depth limit reported at {}", r.depth);
        return same("at the limit", &x, &r);
      }
      (Err(e), _) => bail!("at depth {}: {}", r.depth, e),
      (Ok(a), None) => bail!("derived past depth 255: {}", hex(&a.serialize()))
    }
  }
}

pub fn prop() -> Prop {
  Prop {
    id: "C05",
    subs: vec![
      Sub {
        name: "walk",
        rule: "a seed or an extended key (scalars small, near the order, with leading zeros; any depth) and 0..6 child indices of all kinds, compared with reference BIP-32 after every step; non-trivial: at least one child",
        quick: 28_000,
        thorough: 2_000_000,
        enumerate: None,
        f: walk
      },
      Sub {
        name: "deep",
        rule: "chains from a random depth up to and past 255",
        quick: 400,
        thorough: 20_000,
        enumerate: None,
        f: deep
      }
    ]
  }
}
