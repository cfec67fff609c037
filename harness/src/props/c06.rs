use super::c05::{gen_xprv, same};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::{secp, u256};
use secp256k1_bip32::XPrv;

fn valid(d: &[u8]) -> bool {
  if d.len() != 77 || secp::with_checksum(&d[..73])[73..] != d[73..] {
    return false;
  }
  let k = u256::from_be(&d[41..73]);
  !u256::is_zero(&k) && !u256::ge(&k, &secp::curve().n.m)
}

/// what every reader of stored keys must do with these bytes
fn probe(d: &[u8]) -> Result<(), String> {
  let ok = valid(d);
  match guard("reading the key", || XPrv::from_data(d))? {
    Ok(x) => {
      check!(ok, "damaged key accepted ({})", show(d));
      check!(x.serialize() == d, "read and written back as {}", hex(&x.serialize()));
    }
    Err(e) => check!(!ok, "good key refused: {}", e)
  }
  for n in 0..2 {
    match guard("loading the key", || factory(n).key_from_data(d))? {
      Ok(_) => check!(ok, "{} accepted a damaged key ({})", NET_NAMES[n], show(d)),
      // ethereum derives two levels while loading
      Err(e) => check!(!ok || (n == 1 && d[0] >= 254), "{} refused a good key: {}", NET_NAMES[n], e)
    }
  }
  Ok(())
}

fn roundtrip(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let r = gen_xprv(s);
  cx.nt();
  cx.note(|| format!("key {}", hex(&r.stored())));
  let x = XPrv::from_data(&r.stored()).map_err(|e| format!("valid extended key refused: {}", e))?;
  same("read", &x, &r)?;
  let y = XPrv::from_data(&x.serialize()).map_err(|e| format!("own output refused: {}", e))?;
  same("read again", &y, &r)?;
  if r.depth < 255 {
    let i = s.u32_any();
    let a = x.derive(i).map_err(|e| format!("child {}: {}", i, e))?;
    let b = y.derive(i).map_err(|e| format!("child {}: {}", i, e))?;
    check!(a.serialize() == b.serialize(), "children of the two copies differ");
    let c = XPrv::from_data(&a.serialize()).map_err(|e| format!("derived key refused: {}", e))?;
    match r.child(i) {
      Some(w) => same("child written and read", &c, &w)?,
      None => bail!("no reference child")
    }
  }
  let m = s.bytes(40);
  let sig = x.sign(&m).map_err(|e| format!("{}", e))?;
  check!(y.sign(&m).map_err(|e| format!("{}", e))? == sig, "the two copies sign differently");
  Ok(())
}

fn damaged(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let r = gen_xprv(s);
  let mut d = r.stored();
  match s.below(7) {
    0 => {
      let k = s.range(1, 4);
      for _ in 0..k {
        let i = s.idx(d.len());
        d[i] = s.u8();
      }
      cx.label("bytes changed");
    }
    1 => {
      let n = s.below(200) as usize;
      d.resize(n, s.u8());
      cx.label("other length");
    }
    2 => {
      let i = s.idx(d.len());
      let k = s.range(1, 8).min((d.len() - i) as u64) as usize;
      d.drain(i..i + k);
      cx.label("bytes removed");
    }
    3 => {
      let i = s.idx(d.len() + 1);
      let b = s.bytes(8);
      d.splice(i..i, b);
      cx.label("bytes inserted");
    }
    4 => {
      // right checksum, wrong key
      let n = secp::curve().n.m;
      let k = match s.below(5) {
        0 => u256::ZERO,
        1 => n,
        2 => u256::add(&n, &[s.range(1, 1000), 0, 0, 0]).0,
        3 => [u64::MAX, u64::MAX, u64::MAX, u64::MAX],
        _ => u256::sub(&n, &[1, 0, 0, 0]).0
      };
      d[41..73].copy_from_slice(&u256::to_be(&k));
      d = secp::with_checksum(&d[..73]);
      cx.label("key out of range");
    }
    5 => {
      // consistent but longer or shorter
      let n = s.range(0, 120) as usize;
      let mut b = d[..73].to_vec();
      b.resize(n, s.u8());
      d = secp::with_checksum(&b);
      cx.label("other length, checksum right");
    }
    _ => {
      let i = s.idx(4);
      let j = s.idx(4);
      d.swap(73 + i, 73 + j);
      cx.label("checksum shuffled");
    }
  }
  if !valid(&d) {
    cx.nt();
  }
  cx.note(|| format!("bytes {}", hex(&d)));
  probe(&d)
}

/// each of the 616 single-bit errors and a byte replacement in every place
fn bits(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let d = gen_xprv(s).stored();
  cx.nt();
  cx.note(|| format!("all single-bit errors of {}", hex(&d)));
  for i in 0..d.len() {
    for b in 0..8 {
      let mut e = d.clone();
      e[i] ^= 1 << b;
      check!(guard("reading", || XPrv::from_data(&e))?.is_err(), "bit {} of byte {} flipped: accepted", b, i);
    }
    let mut e = d.clone();
    e[i] = e[i].wrapping_add(1 + s.below(255) as u8);
    check!(guard("reading", || XPrv::from_data(&e))?.is_err(), "byte {} changed: accepted", i);
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C06",
    subs: vec![
      Sub {
        name: "roundtrip",
        rule: "extended keys with any depth, fingerprint, index, chain code and structured scalars, read, written, read again, derived and signing",
        quick: 20_000,
        thorough: 1_500_000,
        enumerate: None,
        f: roundtrip
      },
      Sub {
        name: "damaged",
        rule: "stored keys with bytes changed, removed, inserted, another length, or a right checksum over an impossible key; non-trivial: the reference refuses them",
        quick: 150_000,
        thorough: 8_000_000,
        enumerate: None,
        f: damaged
      },
      Sub {
        name: "bits",
        rule: "every single-bit error and one replacement per byte of a stored key",
        quick: 3_000,
        thorough: 150_000,
        enumerate: None,
        f: bits
      }
    ]
  }
}
