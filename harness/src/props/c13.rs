//! The stored format: written by an independent writer, read by an independent reader, and damaged.
use super::c05::gen_xprv;
use super::c12::*;
use crate::common::*;
use crate::engine::*;
use crate::refimpl::json::{self, J};
use crate::refimpl::{b64, bip39 as rb, secp, u256};
use keychain::{Error, KeychainManager, Network};
use std::collections::BTreeMap;

const FIXED_SALT: [u8; 32] = [0x17; 32];

/// encrypt cheaply: one salt and few passwords, so that the key is computed once
fn seal(s: &mut Src, plain: &[u8], pass: &str) -> Vec<u8> {
  let nonce = s.rand_n(12);
  crate::refimpl::aead::envelope_seal(plain, pass, &FIXED_SALT, &nonce)
}

/// JSON text with free choice of white space, member order and escapes
fn styled(s: &mut Src, j: &J, o: &mut String) {
  fn ws(s: &mut Src, o: &mut String) {
    if s.chance(1, 5) {
      o.push_str(*s.choose(&[" ", "\n", "\t", "\r\n", "   "]));
    }
  }
  fn text(s: &mut Src, t: &str, o: &mut String) {
    let esc = s.chance(1, 5);
    o.push('"');
    for c in t.chars() {
      let plain = !(c == '"' || c == '\\' || (c as u32) < 0x20);
      if plain && !(esc && s.chance(1, 8)) {
        o.push(c);
      } else if c == '/' && s.bool() {
        o.push_str("\\/");
      } else {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
          o.push_str(&format!("\\u{:04x}", u));
        }
      }
    }
    o.push('"');
  }
  ws(s, o);
  match j {
    J::Str(t) => text(s, t, o),
    J::Arr(v) => {
      o.push('[');
      for (i, x) in v.iter().enumerate() {
        if i > 0 {
          o.push(',');
        }
        styled(s, x, o);
      }
      ws(s, o);
      o.push(']');
    }
    J::Obj(v) => {
      let mut v = v.clone();
      if s.chance(1, 3) {
        for i in (1..v.len()).rev() {
          let k = s.idx(i + 1);
          v.swap(i, k);
        }
      }
      o.push('{');
      for (i, (k, x)) in v.iter().enumerate() {
        if i > 0 {
          o.push(',');
        }
        ws(s, o);
        text(s, k, o);
        ws(s, o);
        o.push(':');
        styled(s, x, o);
      }
      ws(s, o);
      o.push('}');
    }
    x => o.push_str(&x.write())
  }
  ws(s, o);
}

fn styled_plain(s: &mut Src, p: &Plain) -> Vec<u8> {
  let mut inner = String::new();
  let ij = inner_json(p);
  if s.bool() {
    styled(s, &ij, &mut inner);
  } else {
    inner = ij.write();
  }
  let oj = outer(J::n(p.version), J::s(&b64::encode(inner.as_bytes())));
  let mut o = String::new();
  if s.bool() {
    styled(s, &oj, &mut o);
  } else {
    o = oj.write();
  }
  o.into_bytes()
}

fn outer(version: J, data: J) -> J {
  J::Obj(vec![("version".into(), version), ("data".into(), data)])
}

/// stored key data a network accepts
fn gen_key_data(s: &mut Src, id: u32) -> Vec<u8> {
  match built_in(id) {
    Some(2) => {
      if s.bool() {
        let seed = gen_seed(s);
        ref_key_data(2, &seed)
      } else {
        let mut d = s.bytes_n(96);
        d[0] &= 248;
        d[31] = (d[31] & 31) | 64;
        d
      }
    }
    Some(n) => {
      if s.bool() {
        let seed = gen_seed(s);
        ref_key_data(n, &seed)
      } else {
        let mut x = gen_xprv(s);
        x.depth %= 240;
        x.stored()
      }
    }
    None => s.bytes(200)
  }
}

pub const FOREIGN: [u32; 4] = [5, 0x8000_0002, 0xffff_fffe, 0];

fn gen_record(s: &mut Src) -> Plain {
  let mut p = Plain { version: s.range(1, 2), ..Default::default() };
  let nets: Vec<u32> = COINS.iter().chain(FOREIGN.iter()).cloned().collect();
  for id in nets {
    if s.bool() {
      let d = gen_key_data(s, id);
      p.keys.insert(id, d);
    }
  }
  if s.chance(1, 30) {
    // a wallet of many networks
    let mut r = Rng(s.u64());
    for _ in 0..s.range(1, 500) {
      let id = r.next() as u32;
      if built_in(id).is_none() {
        let n = (r.next() % 9) as usize * 12;
        p.keys.insert(id, (0..n).map(|_| r.next() as u8).collect());
      }
    }
  }
  if p.version == 2 {
    match s.weighted(&[3, 4, 1, 2]) {
      0 => p.seed = Some(gen_seed(s)),
      1 => {
        let words = *s.choose(&[9usize, 12, 12, 12, 15, 24]);
        let (l, _, t) = gen_phrase(s, words);
        p.mnemonic = Some(t);
        p.lang = Some(l);
      }
      2 => {}
      _ => {
        // any text another program may have put there
        p.mnemonic = Some(s.text(60));
        p.lang = Some(s.idx(8));
      }
    }
  }
  p
}

fn show_plain(p: &[u8]) -> String {
  String::from_utf8_lossy(p).into_owned()
}

/// keys usable after opening
fn check_open(s: &mut Src, mask: u32, kc: &keychain::Keychain, keys: &BTreeMap<u32, Vec<u8>>) -> Result<(), String> {
  let want: Vec<u32> = keys.keys().cloned().filter(|k| mask_nets(mask).iter().any(|n| COINS[*n] == *k)).collect();
  let mut got = sorted_nets(kc);
  got.sort();
  check!(got == want, "opens with networks {:?} instead of {:?}", got, want);
  for id in want {
    let n = built_in(id).unwrap();
    let p = gen_path(s, n);
    let k = kc.pub_key(&Network(id), &p).map_err(|e| format!("network {} path {}: {}", id, p.text(), e))?;
    let r = ref_pub_stored(n, &keys[&id], &p);
    check!(k == r, "network {} path {}: public key {}, from the stored key {}", id, p.text(), hex(&k), hex(&r));
  }
  Ok(())
}

/// wallets of an independent writer open with everything intact
fn written_elsewhere(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let p = gen_record(s);
  let plain = styled_plain(s, &p);
  let pass = gen_pass(s);
  let mask = s.range(1, 7) as u32;
  let m = manager(mask)?;
  if !p.keys.is_empty() {
    cx.nt();
  }
  cx.label(if p.version == 1 { "version 1" } else { "version 2" });
  cx.note(|| format!("stored {} manager networks {:?}", show_plain(&plain), mask_nets(mask)));
  let blob = write_blob(s, &plain, &pass);
  let kc = guard("opening", || m.keychain_from_data(&blob, &pass))?.map_err(|e| format!("a well-formed wallet does not open: {}", e))?;
  check_open(s, mask, &kc, &p.keys)?;
  match s.below(3) {
    0 => {
      let mut k: Vec<(u32, Vec<u8>)> =
        guard("reading keys", || m.get_keys_data(&blob, &pass))?.map_err(|e| format!("reading keys: {}", e))?.into_iter().map(|(n, d)| (n.0, d)).collect();
      k.sort();
      check!(k == p.keys.clone().into_iter().collect::<Vec<_>>(), "the keys read are {:?}", k.iter().map(|(n, d)| format!("{}:{}", n, show(d))).collect::<Vec<_>>());
    }
    1 => match (guard("reading the phrase", || m.retrieve_mnemonic(&blob, &pass))?, &p.mnemonic, &p.lang) {
      (Ok((t, l)), Some(t2), Some(l2)) => {
        check!(&t == t2, "the phrase is {:?} instead of {:?}", t, t2);
        check!(l == LANGS[*l2], "the language is {:?} instead of {}", l, LANG_STORED[*l2]);
      }
      (Ok(x), _, _) => bail!("a phrase {:?} comes from a wallet without one", x),
      (Err(Error::SeedIsNotSaved), None, _) => {}
      (Err(e), _, _) => bail!("reading the phrase: {}", e)
    },
    _ => add_to(s, cx, &m, mask, &p, &blob, &pass)?
  }
  Ok(())
}

fn add_to(s: &mut Src, cx: &mut Cx, m: &KeychainManager, mask: u32, p: &Plain, blob: &[u8], pass: &str) -> Result<(), String> {
  let free: Vec<usize> = mask_nets(mask).into_iter().filter(|n| !p.keys.contains_key(&COINS[*n])).collect();
  if free.is_empty() {
    return Ok(());
  }
  let n = *s.choose(&free);
  let seed = match (&p.seed, &p.mnemonic, p.lang) {
    (Some(x), _, _) => Some(x.clone()),
    (None, Some(t), Some(l)) if rb::parse(l, t).is_ok() && t.split(' ').count() == mask_words(mask) => Some(rb::seed(t, b"")),
    _ => None
  };
  match (guard("adding a network", || m.add_network(blob, pass, net(n)))?, seed) {
    (Ok(b), Some(seed)) => {
      let mut want = p.clone();
      want.keys.insert(COINS[n], ref_key_data(n, &seed));
      let got = read_blob(&b, pass)?;
      check!(
        got.seed == want.seed && got.mnemonic == want.mnemonic && got.lang == want.lang && got.keys == want.keys,
        "after adding {} the wallet holds {:?} instead of {:?}",
        NET_NAMES[n],
        got,
        want
      );
      cx.label("network added");
    }
    (Ok(_), None) => bail!("{} is added to a wallet without a usable seed or phrase", NET_NAMES[n]),
    (Err(e), Some(_)) => bail!("adding {}: {}", NET_NAMES[n], e),
    (Err(e), None) => {
      check!(matches!(e, Error::SeedIsNotSaved | Error::MnemonicError(_)), "adding {}: {}", NET_NAMES[n], e);
    }
  }
  Ok(())
}

/// what the library stores is read by the independent reader
fn library_output(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let mask = s.range(1, 7) as u32;
  let m = manager(mask)?;
  let pass = gen_pass(s);
  cx.nt();
  let mut want = Plain { version: 2, ..Default::default() };
  let (blob, seed) = if s.bool() {
    let seed = gen_seed(s);
    cx.note(|| format!("networks {:?} seed {}", mask_nets(mask), hex(&seed)));
    want.seed = Some(seed.clone());
    (guard("creating", || m.keychain_data_from_seed(&seed, &pass))?, seed)
  } else {
    let (l, _, t) = gen_phrase(s, mask_words(mask));
    cx.note(|| format!("networks {:?} phrase {:?}", mask_nets(mask), t));
    want.mnemonic = Some(t.clone());
    want.lang = Some(l);
    let seed = rb::seed(&t, b"");
    (guard("creating", || m.keychain_data_from_mnemonic(&t, &pass, Some(LANGS[l])))?, seed)
  };
  let mut blob = blob.map_err(|e| format!("creating: {}", e))?;
  for n in mask_nets(mask) {
    want.keys.insert(COINS[n], ref_key_data(n, &seed));
  }
  let got = read_blob(&blob, &pass)?;
  check!(got == want, "the stored wallet reads as {:?} instead of {:?}", got, want);
  cx.label(if want.seed.is_some() { "from a seed" } else { "from a phrase" });
  if mask != 7 && s.bool() && (want.seed.is_some() || mask != 4) {
    let all = manager(7)?;
    let free: Vec<usize> = (0..3).filter(|n| mask >> n & 1 == 0).collect();
    let n = *s.choose(&free);
    blob = all.add_network(&blob, &pass, net(n)).map_err(|e| format!("adding {}: {}", NET_NAMES[n], e))?;
    want.keys.insert(COINS[n], ref_key_data(n, &seed));
    let got = read_blob(&blob, &pass)?;
    check!(got == want, "after adding {} the wallet reads as {:?}", NET_NAMES[n], got);
    cx.label("network added");
  }
  Ok(())
}

fn passwords(s: &mut Src) -> &'static str {
  *s.choose(&["", "secret", "пароль"])
}

/// one operation on stored content that decrypts; Err(e) is the library's error
fn one_op(s: &mut Src, m: &KeychainManager, nets: &[usize], blob: &[u8], pass: &str) -> Result<(String, Result<(), Error>), String> {
  Ok(match s.weighted(&[4, 2, 2, 2]) {
    0 => ("opening".into(), guard("opening", || m.keychain_from_data(blob, pass).map(|_| ()))?),
    1 => ("reading the keys".into(), guard("reading the keys", || m.get_keys_data(blob, pass).map(|_| ()))?),
    2 => ("reading the phrase".into(), guard("reading the phrase", || m.retrieve_mnemonic(blob, pass).map(|_| ()))?),
    _ => {
      let n = net(*s.choose(nets));
      ("adding a network".into(), guard("adding a network", || m.add_network(blob, pass, n).map(|_| ()))?)
    }
  })
}

fn bad_base64(s: &mut Src, good: &str) -> String {
  let mut v: Vec<char> = good.chars().collect();
  match s.below(5) {
    0 => {
      let i = s.idx(v.len() + 1);
      v.insert(i, *s.choose(&['!', '-', '_', '\n', ' ', '\u{e9}', '.', '\0']));
    }
    1 => {
      // a count of digits no byte string has
      v.retain(|c| *c != '=');
      if v.is_empty() {
        v.push('A')
      }
      while v.len() % 4 != 1 {
        v.pop();
      }
    }
    2 => v.insert(0, '='),
    3 => {
      let i = s.idx(v.len().max(1));
      if i < v.len() {
        v[i] = *s.choose(&['!', '-', '_', '\u{3b1}']);
      } else {
        v.push('!')
      }
    }
    _ => {
      v.retain(|c| *c != '=');
      while v.len() % 4 != 1 {
        v.push('A')
      }
    }
  }
  v.into_iter().collect()
}

/// content that decrypts but is not a wallet
fn malformed(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let mut p = gen_record(s);
  if p.keys.is_empty() {
    let d = gen_key_data(s, COINS[0]);
    p.keys.insert(COINS[0], d);
  }
  let mut i = inner_json(&p);
  let good_inner = i.write();
  let version = J::n(p.version);
  let data = J::s(&b64::encode(good_inner.as_bytes()));
  let set = |o: &mut J, k: &str, v: Option<J>| {
    if let J::Obj(f) = o {
      match v {
        Some(v) => f.iter_mut().filter(|x| x.0 == k).for_each(|x| x.1 = v.clone()),
        None => f.retain(|x| x.0 != k)
      }
    }
  };
  let odd = |s: &mut Src| -> J {
    match s.below(7) {
      0 => J::n(s.u32_any()),
      1 => J::Bool(s.bool()),
      2 => J::Obj(vec![]),
      3 => J::Obj(vec![("a".into(), J::Null)]),
      4 => J::Num("-1".into()),
      5 => J::Num("1.5".into()),
      _ => J::Arr(vec![J::Arr(vec![])])
    }
  };
  let what;
  let mut plain: Vec<u8> = match s.weighted(&[1, 3, 3, 2, 8, 1]) {
    0 => {
      what = "noise";
      let mut b = s.bytes(300);
      if json::parse(&b).is_some() {
        b.insert(0, b'}');
      }
      b
    }
    1 => {
      what = "version";
      let v = match s.below(5) {
        0 => J::n(*s.choose(&[0u64, 3, 4, 10, 20, 255, 256, 257, 258, 65535, 65536, 65537, 65538, 0x1_0000_0001, 0x1_0000_0002, u64::MAX])),
        1 => {
          let v = s.u32_any() as u64;
          J::n(if v == 1 || v == 2 { v + 2 } else { v })
        }
        2 => J::Num((*s.choose(&["-1", "-2", "1.5", "2.5", "99999999999999999999999"])).into()),
        3 => J::s(*s.choose(&["1", "2", "V2", ""])),
        _ => s.choose(&[J::Null, J::Bool(true), J::Arr(vec![J::n(2)]), J::Obj(vec![])]).clone()
      };
      let mut o = outer(version, data);
      set(&mut o, "version", if s.chance(1, 8) { None } else { Some(v) });
      o.write().into_bytes()
    }
    2 => {
      what = "data field";
      let d = match s.below(6) {
        0 => None,
        1 => Some(odd(s)),
        2 => Some(J::Null),
        3 => {
          let t = b64::encode(good_inner.as_bytes());
          Some(J::Str(bad_base64(s, &t)))
        }
        4 => {
          let k = s.idx(good_inner.len());
          Some(J::s(&b64::encode(&good_inner.as_bytes()[..k])))
        }
        _ => {
          let mut b = good_inner.clone().into_bytes();
          b.extend_from_slice(*s.choose(&[&b"x"[..], b"{}", b",", b"\0", b"]"]));
          Some(J::s(&b64::encode(&b)))
        }
      };
      let mut o = outer(version, data);
      set(&mut o, "data", d);
      o.write().into_bytes()
    }
    3 => {
      what = "outer text";
      let mut b = outer(version, data).write().into_bytes();
      match s.below(4) {
        0 => {
          let k = s.idx(b.len());
          b.truncate(k);
        }
        1 => b.extend_from_slice(*s.choose(&[&b"x"[..], b"{}", b"\0", b"\xff"])),
        2 => b.insert(0, *s.choose(&[b'x', 0, b'[', 0xef, b','])),
        _ => {
          let k = s.idx(b.len());
          b[k] = *s.choose(&[0xffu8, 0xc0, 0x80, 0]);
        }
      }
      b
    }
    4 => {
      let mut keys: Vec<J> = i.get("keys").unwrap().arr().unwrap().to_vec();
      let k = s.idx(keys.len());
      let (kn, kd) = match &keys[k] {
        J::Arr(v) => (v[0].clone(), v[1].clone()),
        _ => unreachable!()
      };
      let field = if p.version == 2 { s.below(7) } else { s.below(4) };
      match field {
        0 => {
          what = "keys field";
          let v = match s.below(4) {
            0 => None,
            1 => Some(J::Null),
            2 => Some(odd(s)),
            _ => Some(J::s("keys"))
          };
          set(&mut i, "keys", v);
        }
        1 => {
          what = "key pair";
          keys[k] = match s.below(6) {
            0 => J::Arr(vec![]),
            1 => J::Arr(vec![kn]),
            2 => J::Arr(vec![kn, kd, J::Null]),
            3 => J::Obj(vec![("network".into(), kn), ("key".into(), kd)]),
            4 => kd,
            _ => J::Null
          };
          set(&mut i, "keys", Some(J::Arr(keys)));
        }
        2 => {
          what = "network number";
          let n = match s.below(4) {
            0 => J::Num((*s.choose(&["4294967296", "-1", "6442450944", "1.5", "18446744073709551616", "2147483648.5"])).into()),
            1 => J::s(&kn.write()),
            2 => J::Null,
            _ => J::Arr(vec![kn.clone(), kn])
          };
          keys[k] = J::Arr(vec![n, kd]);
          set(&mut i, "keys", Some(J::Arr(keys)));
        }
        3 => {
          what = "key text";
          let d = match s.below(4) {
            0 => J::Null,
            1 => odd(s),
            _ => {
              let t = kd.str().unwrap_or("").to_string();
              J::Str(bad_base64(s, &t))
            }
          };
          keys[k] = J::Arr(vec![kn, d]);
          set(&mut i, "keys", Some(J::Arr(keys)));
        }
        4 => {
          what = "seed field";
          let v = match s.below(3) {
            0 => odd(s),
            1 => J::Bool(true),
            _ => {
              let t = b64::encode(&s.rand_n(64));
              J::Str(bad_base64(s, &t))
            }
          };
          set(&mut i, "seed", Some(v));
        }
        5 => {
          what = "phrase field";
          set(&mut i, "mnemonic", Some(odd(s)));
        }
        _ => {
          what = "language field";
          let v = match s.below(3) {
            0 => J::s(*s.choose(&["english", "ENGLISH", "German", "", "English ", "Chinese"])),
            1 => J::n(s.below(9)),
            _ => J::Bool(false)
          };
          set(&mut i, "dictionary", Some(v));
        }
      }
      outer(version, J::s(&b64::encode(i.write().as_bytes()))).write().into_bytes()
    }
    _ => {
      what = "nothing";
      vec![]
    }
  };
  if read_plain(&plain).is_ok() {
    // the change happened to leave a well-formed wallet
    plain = b"{}".to_vec();
  }
  let mask = s.range(1, 7) as u32;
  let m = manager(mask)?;
  let pass = passwords(s);
  cx.nt();
  cx.label(what);
  cx.note(|| format!("damaged {}: {:?} stored with version {} networks {:?}", what, show_plain(&plain), p.version, mask_nets(mask)));
  if what != "nothing" && what != "noise" {
    cx.note(|| format!("inner {}", i.write()));
  }
  let blob = seal(s, &plain, pass);
  let (op, r) = one_op(s, &m, &mask_nets(mask), &blob, pass)?;
  check!(r.is_err(), "{} accepts content with a damaged {}", op, what);
  Ok(())
}

/// padding and left-over bits are not insisted on
fn b64_lenient(t: &str) -> Option<Vec<u8>> {
  let mut t = t.to_string();
  for _ in 0..3 {
    if t.ends_with('=') {
      t.pop();
    }
  }
  while t.len() % 4 != 0 {
    t.push('=');
  }
  b64::decode(&t)
}

/// lenient reading, as far as any reader may go: optional fields may be missing, other fields are skipped, the last of
/// equal networks counts
fn lenient(b: &[u8]) -> Option<BTreeMap<u32, Vec<u8>>> {
  let o = json::parse(b)?;
  let v = o.get("version")?.u64()?;
  if v != 1 && v != 2 {
    return None;
  }
  let i = json::parse(&b64_lenient(o.get("data")?.str()?)?)?;
  let mut m = BTreeMap::new();
  for k in i.get("keys")?.arr()? {
    let a = k.arr()?;
    if a.len() != 2 || a[0].u64()? > 0xffff_ffff {
      return None;
    }
    m.insert(a[0].u64()? as u32, b64_lenient(a[1].str()?)?);
  }
  Some(m)
}

/// bytes changed anywhere in the stored text (outer or inner)
fn noise(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let p = gen_record(s);
  let mut inner = inner_json(&p).write().into_bytes();
  let deep = s.chance(2, 3);
  let hit = |s: &mut Src, b: &mut Vec<u8>| {
    for _ in 0..s.range(1, 3) {
      let i = s.idx(b.len());
      match s.below(5) {
        0 => b[i] ^= 1 << s.below(8),
        1 => b[i] = *s.choose(b"\"[]{},:0129-e.nult\\ A="),
        2 => {
          b.remove(i);
        }
        3 => {
          let c = *s.choose(b"\"[]{},:0129-e.nult\\ A=");
          b.insert(i, c);
        }
        _ => {
          let n = b.len();
          let k = s.range(1, 12).min((n - i) as u64) as usize;
          let d: Vec<u8> = b[i..i + k].to_vec();
          let at = s.idx(n + 1);
          b.splice(at..at, d);
        }
      }
      if b.is_empty() {
        b.push(b' ');
      }
    }
  };
  if deep {
    hit(s, &mut inner);
  }
  let mut plain = outer(J::n(p.version), J::s(&b64::encode(&inner))).write().into_bytes();
  if !deep {
    hit(s, &mut plain);
  }
  let mask = s.range(1, 7) as u32;
  let m = manager(mask)?;
  let pass = passwords(s);
  cx.note(|| format!("stored {:?} inner {:?} networks {:?}", show_plain(&plain), show_plain(&inner), mask_nets(mask)));
  let blob = seal(s, &plain, pass);
  let truth = lenient(&plain);
  if s.chance(1, 3) {
    match guard("reading the keys", || m.get_keys_data(&blob, pass))? {
      Ok(k) => {
        let t = truth.ok_or("keys are read from content that is no wallet")?;
        let k: BTreeMap<u32, Vec<u8>> = k.into_iter().map(|(n, d)| (n.0, d)).collect();
        check!(k == t, "other keys are read than the content has");
        cx.label("still readable");
      }
      Err(_) => {
        cx.nt();
        cx.label("refused");
      }
    }
  } else {
    match guard("opening", || m.keychain_from_data(&blob, pass))? {
      Ok(kc) => {
        let t = truth.ok_or("content that is no wallet opens")?;
        check_open(s, mask, &kc, &t)?;
        cx.label("still readable");
      }
      Err(_) => {
        cx.nt();
        cx.label("refused");
      }
    }
  }
  Ok(())
}

/// damage in the key data of one network
fn key_damage(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(3);
  let mut p = gen_record(s);
  let good = gen_key_data(s, COINS[n]);
  let mut d = good.clone();
  let what = match s.below(6) {
    0 => {
      d.truncate(s.idx(good.len()));
      "shortened"
    }
    1 => {
      let k = s.range(1, 120) as usize;
      let x = s.bytes_n(k);
      d.extend_from_slice(&x);
      "lengthened"
    }
    2 => {
      d = vec![];
      "empty"
    }
    3 => {
      let l = s.len(300);
      d = s.bytes_n(if l == good.len() { l + 1 } else { l });
      "of another length"
    }
    _ => {
      if n == 2 {
        match s.below(3) {
          0 => d[0] |= 1 << s.below(3),
          1 => d[31] ^= 0x80 >> s.below(3),
          _ => {
            d[31] = s.u8() | 0x80;
          }
        }
        "with forbidden bits"
      } else if s.bool() {
        let i = s.idx(77);
        d[i] ^= 1 << s.below(8);
        "with a changed byte"
      } else {
        // a secret key outside the curve order, checksum correct
        let mut x = xprv_of(&good);
        x.key = match s.below(4) {
          0 => [0; 32],
          1 => u256::to_be(&secp::curve().n.m),
          2 => [0xff; 32],
          _ => {
            let mut k = u256::to_be(&secp::curve().n.m);
            k[31] = k[31].wrapping_add(s.range(0, 100) as u8).max(k[31]);
            k
          }
        };
        d = x.stored();
        "with an impossible secret"
      }
    }
  };
  p.keys.insert(COINS[n], d.clone());
  let plain = write_plain(&p);
  let mask = s.range(1, 7) as u32;
  let m = manager(mask)?;
  let pass = passwords(s);
  cx.nt();
  cx.label(what);
  cx.note(|| format!("{} key data {}: {} (good {}) networks {:?}", NET_NAMES[n], what, hex(&d), hex(&good), mask_nets(mask)));
  let blob = seal(s, &plain, pass);
  let supported = mask >> n & 1 == 1;
  match guard("opening", || m.keychain_from_data(&blob, pass))? {
    Ok(kc) => {
      check!(!supported, "a wallet opens whose {} key data is {}", NET_NAMES[n], what);
      check_open(s, mask, &kc, &p.keys)?;
    }
    Err(Error::KeyError(k, e)) => check!(supported && k == net(n), "the error names {}: {}", k, e),
    Err(e) => bail!("{} key data {}: {}", NET_NAMES[n], what, e)
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C13",
    subs: vec![
      Sub {
        name: "written_elsewhere",
        rule: "version 1 and 2 records with any mix of known and unknown networks, extended keys of any depth, seeds, phrases or other text, in any JSON style; opened by managers of any networks, then keys or phrase read or a network added; non-trivial with at least one key",
        quick: 400,
        thorough: 60_000,
        enumerate: None,
        f: written_elsewhere
      },
      Sub {
        name: "library_output",
        rule: "wallets made by the library from seeds and phrases (all languages), some with a network added, read by the independent reader",
        quick: 250,
        thorough: 40_000,
        enumerate: None,
        f: library_output
      },
      Sub {
        name: "malformed",
        rule: "plaintexts with a definite fault: noise, version, data field, truncation, base64, key list, pairs, network numbers, seed, phrase and language fields",
        quick: 1_300,
        thorough: 250_000,
        enumerate: None,
        f: malformed
      },
      Sub {
        name: "noise",
        rule: "one to three byte-level changes in the outer or inner text; whatever still opens must have exactly the keys the text has; non-trivial when refused",
        quick: 900,
        thorough: 200_000,
        enumerate: None,
        f: noise
      },
      Sub {
        name: "key_damage",
        rule: "key data of one network shortened, lengthened, with changed bytes, forbidden bits or an impossible secret",
        quick: 900,
        thorough: 150_000,
        enumerate: None,
        f: key_damage
      }
    ]
  }
}
