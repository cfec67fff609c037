use crate::common::*;
use crate::engine::*;
use crate::refimpl::{ed, hash, secp};
use keychain::Keychain;

fn gen_msg(s: &mut Src) -> Vec<u8> {
  s.bytes_far(1200, 300_000)
}

/// a signature an independent signer makes with the key of a derivation path (any path), with a nonce of its own
fn ref_sign(s: &mut Src, n: usize, seed: &[u8], path: &[u32], msg: &[u8]) -> Vec<u8> {
  if n == 2 {
    let k = ed::XprvEd::master(seed).walk(path);
    let nonce = if s.bool() { k.0[32..64].to_vec() } else { s.rand_n(32) };
    ed::sign_with(&k.0, &nonce, msg).to_vec()
  } else {
    let k = secp::Xprv::master(seed).and_then(|k| k.walk(path)).expect("derivable");
    let h = hash::keccak256(msg);
    loop {
      let mut nonce = s.rand_n(32);
      nonce[0] &= 0x7f;
      nonce[31] |= 1;
      if let Some(x) = secp::ecdsa_sign(&h, &k.key, &nonce) {
        return x;
      }
    }
  }
}

/// signatures made elsewhere: with this key they verify, with any related key they do not
fn relatives(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(3);
  let seed = gen_seed(s);
  let mut p = gen_path(s, n);
  // mostly the everyday paths
  if s.chance(3, 4) {
    p.0[4] = s.below(3) as u32;
  }
  if s.chance(3, 4) {
    p.0[2] = HARD + s.below(3) as u32;
  }
  let msg = s.bytes(200);
  let key = key_of(n, &seed)?;
  cx.nt();
  cx.label(NET_NAMES[n]);
  cx.note(|| format!("{} seed {} path {} message {}", NET_NAMES[n], hex(&seed), p.text(), show(&msg)));
  let forms = |x: &[u8], s: &mut Src| -> Vec<u8> {
    if n != 2 && s.bool() {
      x[..64].to_vec()
    } else {
      x.to_vec()
    }
  };
  let x = ref_sign(s, n, &seed, &p.0, &msg);
  check!(accepts(n, &ref_pub(n, &seed, &p), &msg, &x), "HARNESS: the reference refuses its own signature {}", hex(&x));
  let x = forms(&x, s);
  match guard("verifying", || key.verify(&msg, &x, &p))? {
    Ok(r) => check!(r, "signature {} made by an independent signer with the same key does not verify", hex(&x)),
    Err(e) => bail!("signature {} made by an independent signer with the same key is refused: {}", hex(&x), e)
  }
  // every selection of the path's steps, its siblings, and the same path elsewhere
  let mut others: Vec<Vec<u32>> = Vec::new();
  for mask in 0..31u32 {
    others.push((0..5).filter(|i| mask >> i & 1 == 1).map(|i| p.0[i]).collect());
  }
  for i in 0..5 {
    let mut q = p.0;
    q[i] ^= HARD;
    others.push(q.to_vec());
    let mut q = p.0;
    q[i] ^= 1;
    others.push(q.to_vec());
    let mut q = p.0;
    q[i] &= HARD;
    others.push(q.to_vec());
  }
  for c in COINS.iter().chain([HARD + 1].iter()) {
    let mut q = p.0;
    q[1] = *c;
    others.push(q.to_vec());
  }
  for u in [44, 49, 84, 1852] {
    let mut q = p.0;
    q[0] = HARD + u;
    others.push(q.to_vec());
  }
  let mut long = p.0.to_vec();
  long.push(0);
  others.push(long);
  let mut back = p.0.to_vec();
  back.reverse();
  others.push(back);
  others.retain(|q| q[..] != p.0[..]);
  for _ in 0..6 {
    let q = others[s.idx(others.len())].clone();
    let x = ref_sign(s, n, &seed, &q, &msg);
    let x = forms(&x, s);
    match guard("verifying", || key.verify(&msg, &x, &p))? {
      Ok(false) => {}
      Ok(true) => bail!("signature {} made with the key of {:?} verifies for {}", hex(&x), q, p.text()),
      Err(e) => bail!("signature {} made with the key of {:?}: error {} instead of false", hex(&x), q, e)
    }
  }
  Ok(())
}

/// does an independent verifier accept
fn accepts(n: usize, pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
  if n == 2 {
    let mut k = [0u8; 32];
    k.copy_from_slice(&pk[..32]);
    sig.len() == 64 && ed::verify(&k, msg, sig)
  } else {
    let p = secp::parse_full(pk);
    let h = hash::keccak256(msg);
    match sig.len() {
      64 => secp::ecdsa_verify(&h, sig, &p),
      65 => secp::ecdsa_verify(&h, &sig[..64], &p) && secp::ecdsa_recover(&h, &sig[..64], sig[64]) == p,
      _ => false
    }
  }
}

fn other_path(s: &mut Src, n: usize, p: &P) -> P {
  let mut q = *p;
  match s.below(4) {
    0 => q.0[2] ^= 1 << s.below(31),
    1 => q.0[3] ^= 1,
    2 => q.0[4] ^= 1 << s.below(31),
    _ => {
      if n == 0 {
        q.0[0] ^= 1 << s.below(32)
      } else {
        q.0[4] ^= 1
      }
    }
  }
  q
}

fn other_msg(s: &mut Src, m: &[u8]) -> Vec<u8> {
  let mut v = m.to_vec();
  match s.below(9) {
    5 | 6 if !v.is_empty() => {
      // towards the end
      let i = v.len() - 1 - s.len(v.len() - 1);
      v[i] ^= 1 << s.below(8);
    }
    7 => {
      let k = s.len(v.len());
      v.truncate(v.len() - k);
    }
    8 => {
      let k = s.range(1, 70) as usize;
      let b = *s.choose(&[0u8, 0xff, 0x20]);
      v.resize(m.len() + k, b);
    }
    0 => v.push(s.u8()),
    1 => {
      if v.pop().is_none() {
        v.push(0)
      }
    }
    2 => v.push(0),
    3 => v = gen_msg(s),
    _ => {
      if v.is_empty() {
        v.push(1)
      } else {
        let i = s.idx(v.len());
        v[i] ^= 1 << s.below(8)
      }
    }
  }
  v
}

fn all_ways(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(3);
  let seed = gen_seed(s);
  let p = gen_path(s, n);
  let msg = gen_msg(s);
  cx.nt();
  cx.label(NET_NAMES[n]);
  cx.note(|| format!("{} seed {} path {} message {}", NET_NAMES[n], hex(&seed), p.text(), show(&msg)));
  let kc = Keychain::new(vec![key_of(n, &seed)?]);
  let nt = net(n);
  let pk = kc.pub_key(&nt, &p).map_err(|e| format!("public key: {}", e))?;
  check!(pk == ref_pub(n, &seed, &p), "public key {}", hex(&pk));
  let sig = kc.sign(&nt, &msg, &p).map_err(|e| format!("signing: {}", e))?;
  cx.note(|| format!("signature {}", hex(&sig)));
  let size = if n == 2 { 64 } else { 65 };
  check!(sig.len() == size, "signature of {} bytes", sig.len());
  check!(accepts(n, &pk, &msg, &sig), "an independent verifier refuses signature {} for key {}", hex(&sig), hex(&pk));
  if n != 2 {
    check!(secp::is_low_s(&sig[32..64]), "s is in the upper half: {}", hex(&sig));
    check!(sig[64] < 2, "recovery byte {}", sig[64]);
  }
  let v = |m: &[u8], sg: &[u8], q: &P| kc.verify(&nt, m, sg, q);
  let own = v(&msg, &sig, &p).map_err(|e| format!("the wallet's own signature of {} bytes is refused: {}", sig.len(), e))?;
  check!(own, "the wallet's own signature does not verify");
  if n != 2 {
    let short = v(&msg, &sig[..64], &p).map_err(|e| format!("64-byte form refused: {}", e))?;
    check!(short, "the signature without its recovery byte does not verify");
  }
  let full = if n == 2 || s.bool() { sig.clone() } else { sig[..64].to_vec() };
  // other message, other path, other wallet
  let m2 = other_msg(s, &msg);
  if m2 != msg {
    let r = v(&m2, &full, &p).map_err(|e| format!("for another message: {}", e))?;
    check!(!r, "verifies for another message {}", show(&m2));
  }
  let q = other_path(s, n, &p);
  let r = v(&msg, &full, &q).map_err(|e| format!("for another path: {}", e))?;
  check!(!r, "verifies for another path {}", q.text());
  if s.chance(1, 4) {
    let mut seed2 = seed.clone();
    seed2[s.idx(64)] ^= 1 << s.below(8);
    let k2 = key_of(n, &seed2)?;
    let r = k2.verify(&msg, &full, &p).map_err(|e| format!("for another wallet: {}", e))?;
    check!(!r, "verifies in another wallet");
  }
  // altered signatures of a possible length
  for _ in 0..s.range(1, 4) {
    let mut a = full.clone();
    match s.below(9) {
      0..=3 => {
        let i = s.idx(a.len());
        a[i] ^= 1 << s.below(8);
      }
      4 => {
        let i = s.idx(a.len());
        a[i] = s.u8();
      }
      5 => {
        let (x, y) = a.split_at_mut(32);
        x.swap_with_slice(&mut y[..32]);
      }
      6 => {
        let h = s.idx(2) * 32;
        let b = *s.choose(&[0u8, 0xff]);
        a[h..h + 32].iter_mut().for_each(|x| *x = b);
      }
      7 => {
        let k = a.len();
        a = s.bytes_n(k);
      }
      _ => {
        if a.len() == 65 {
          a[64] = s.u8();
        } else {
          a[63] = a[63].wrapping_add(1);
        }
      }
    }
    if a == full {
      continue;
    }
    // the mirrored s of ECDSA and out-of-range scalars are outside this oracle: refused or judged like the reference
    let truth = accepts(n, &pk, &msg, &a);
    match guard("verifying an altered signature", || v(&msg, &a, &p))? {
      Ok(true) => check!(truth, "altered signature {} verifies", hex(&a)),
      Ok(false) => {}
      Err(e) => {
        let n0 = secp::curve().n.m;
        let big = n != 2
          && (0..2).any(|h| crate::refimpl::u256::ge(&crate::refimpl::u256::from_be(&a[h * 32..h * 32 + 32]), &n0));
        check!(big || (a.len() == 65 && a[64] > 3), "altered signature {}: error {} instead of false", hex(&a), e)
      }
    }
  }
  Ok(())
}

fn lengths(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let k = s.below(3 * 300) as usize;
  let (n, len) = (k % 3, k / 3);
  let seed = s.rand_n(64);
  let p = gen_path(s, n);
  let msg = gen_msg(s);
  let key = key_of(n, &seed)?;
  let sig = key.sign(&msg, &p).map_err(|e| format!("signing: {}", e))?;
  let mut a = sig.clone();
  a.resize(len, s.u8());
  cx.nt();
  cx.note(|| format!("{} signature resized to {} bytes", NET_NAMES[n], len));
  let possible = len == 64 || (n != 2 && len == 65);
  match guard("verifying", || key.verify(&msg, &a, &p))? {
    Ok(b) => {
      check!(possible, "a {}-byte signature gives {} instead of an error", len, b);
      check!(b == (a == sig || (n != 2 && len == 64)), "{}-byte form of the signature verifies: {}", len, b);
    }
    Err(e) => check!(!possible, "a {}-byte signature is refused: {}", len, e)
  }
  if len < 70 {
    let g = s.bytes_n(len);
    match guard("verifying noise", || key.verify(&msg, &g, &p))? {
      Ok(b) => check!(possible && !b, "{} bytes of noise give {}", len, b),
      Err(_) => {}
    }
  }
  Ok(())
}

/// a wrong recovery byte, all 255 of them
fn recovery(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(2);
  let seed = gen_seed(s);
  let p = gen_path(s, n);
  let msg = gen_msg(s);
  let key = key_of(n, &seed)?;
  let mut sig = key.sign(&msg, &p).map_err(|e| format!("signing: {}", e))?;
  cx.nt();
  cx.note(|| format!("{} signature {} with every recovery byte", NET_NAMES[n], hex(&sig)));
  check!(sig.len() == 65, "signature of {} bytes", sig.len());
  let right = sig[64];
  let some: Vec<u8> = if s.chance(1, 10) { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 27, 28, s.u8()] };
  for b in some {
    sig[64] = b;
    match guard("verifying", || key.verify(&msg, &sig, &p))? {
      Ok(v) => check!(v == (b == right), "recovery byte {} for {}: {}", b, right, v),
      Err(e) => check!(b > 3, "recovery byte {} for {}: error {}", b, right, e)
    }
  }
  Ok(())
}

/// through an encrypted wallet
fn wallet(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let seed = gen_seed(s);
  let m = manager(7)?;
  let blob = m.keychain_data_from_seed(&seed, "pw").map_err(|e| format!("{}", e))?;
  let a = m.keychain_from_data(&blob, "pw").map_err(|e| format!("{}", e))?;
  cx.nt();
  cx.note(|| format!("wallet of seed {}", hex(&seed)));
  let mut sigs = Vec::new();
  for _ in 0..6 {
    let n = s.idx(3);
    let p = gen_path(s, n);
    let msg = gen_msg(s);
    let sig = a.sign(&net(n), &msg, &p).map_err(|e| format!("signing: {}", e))?;
    check!(accepts(n, &ref_pub(n, &seed, &p), &msg, &sig), "{} signature {} refused by an independent verifier", NET_NAMES[n], hex(&sig));
    sigs.push((n, p, msg, sig));
  }
  let b = manager(7)?.keychain_from_data(&blob, "pw").map_err(|e| format!("{}", e))?;
  for (i, (n, p, msg, sig)) in sigs.iter().enumerate() {
    for kc in [&a, &b] {
      let r = kc.verify(&net(*n), msg, sig, p).map_err(|e| format!("own signature refused: {}", e))?;
      check!(r, "own {} signature does not verify", NET_NAMES[*n]);
    }
    let (n2, _, m2, s2) = &sigs[(i + 1) % sigs.len()];
    if m2 != msg && n2 == n {
      let r = b.verify(&net(*n), m2, sig, p).map_err(|e| format!("{}", e))?;
      check!(!r, "signature verifies for another message");
      let r = b.verify(&net(*n), msg, s2, p).map_err(|e| format!("{}", e))?;
      check!(!r, "another signature verifies");
    }
  }
  Ok(())
}

/// many signatures and verifications with the same keys, of messages and paths alike
fn history(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  use super::c07::near_path;
  let seed = gen_seed(s);
  let only = if s.chance(2, 3) { Some(s.idx(3)) } else { None };
  let mut list = Vec::new();
  for n in 0..3 {
    list.push(key_of(n, &seed)?);
  }
  let kc = Keychain::new(list);
  cx.note(|| format!("seed {}", hex(&seed)));
  let mut done: Vec<(usize, P, Vec<u8>, Vec<u8>)> = Vec::new();
  for _ in 0..s.range(3, 24) {
    let old = if done.is_empty() || s.chance(1, 6) { None } else { Some(s.idx(done.len())) };
    match (old, s.below(2)) {
      (Some(i), 0) => {
        // an earlier signature, for its own or a near path and message
        let (n, p, m, sig) = &done[i];
        let q = if s.bool() { *p } else { near_path(s, *n, p) };
        let m2 = if s.bool() { m.clone() } else { other_msg(s, m) };
        cx.note(|| format!("verify signature {} at {} for {}", i, q.text(), show(&m2)));
        let r = kc.verify(&net(*n), &m2, sig, &q).map_err(|e| format!("verifying: {}", e))?;
        check!(r == (q == *p && m2 == *m), "signature {} for {} at {} is {} for {} at {}", hex(sig), show(m), p.text(), if r { "valid" } else { "invalid" }, show(&m2), q.text());
      }
      (old, _) => {
        let (n, p, m) = match old {
          Some(i) => {
            let (n, p, m, _) = &done[i];
            (*n, near_path(s, *n, p), if s.bool() { m.clone() } else { other_msg(s, m) })
          }
          None => {
            let n = only.unwrap_or_else(|| s.idx(3));
            (n, gen_path(s, n), s.bytes(300))
          }
        };
        cx.note(|| format!("signature {}: {} {} at {}", done.len(), NET_NAMES[n], show(&m), p.text()));
        let sig = kc.sign(&net(n), &m, &p).map_err(|e| format!("signing: {}", e))?;
        check!(accepts(n, &ref_pub(n, &seed, &p), &m, &sig), "{} signature {} refused by an independent verifier", NET_NAMES[n], hex(&sig));
        done.push((n, p, m, sig));
      }
    }
  }
  if done.len() > 2 {
    cx.nt();
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C08",
    subs: vec![
      Sub {
        name: "all_ways",
        rule: "network, seed, accepted path and message of 0..1200 bytes, at times up to 300000; the signature judged by reference verifiers and altered in message, path, key and signature bytes",
        quick: 6_500,
        thorough: 1_000_000,
        enumerate: None,
        f: all_ways
      },
      Sub {
        name: "relatives",
        rule: "signatures an independent signer makes, with its own nonces: with the key of the path they verify, with the keys of six related paths (any selection of its steps, siblings, other purposes and coins, its child) they do not",
        quick: 900,
        thorough: 120_000,
        enumerate: None,
        f: relatives
      },
      Sub {
        name: "history",
        rule: "3 to 24 signatures and verifications with the same keys, at paths and of messages that mostly differ little from one another; non-trivial: at least three signatures",
        quick: 1_200,
        thorough: 80_000,
        enumerate: None,
        f: history
      },
      Sub {
        name: "lengths",
        rule: "signatures resized to every length 0..299 on every network",
        quick: 0,
        thorough: 0,
        enumerate: Some(900),
        f: lengths
      },
      Sub {
        name: "recovery",
        rule: "Bitcoin and Ethereum signatures under other recovery bytes (all 256 in a tenth of the cases)",
        quick: 1_000,
        thorough: 150_000,
        enumerate: None,
        f: recovery
      },
      Sub {
        name: "wallet",
        rule: "six signatures made in an encrypted wallet, verified there and in a second opening",
        quick: 140,
        thorough: 20_000,
        enumerate: None,
        f: wallet
      }
    ]
  }
}
