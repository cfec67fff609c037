use crate::common::*;
use crate::engine::*;
use crate::refimpl::aead;
use keychain::crypt::{decrypt, encrypt, DecryptError};
use keychain::Entropy;
use std::cell::RefCell;

/// a random source that writes down what it gave
struct Source {
  rng: RefCell<Rng>,
  given: RefCell<Vec<u8>>
}
impl Entropy for Source {
  fn fill_bytes(&self, into: &mut [u8]) {
    for b in into.iter_mut() {
      *b = (self.rng.borrow_mut().next() >> 32) as u8;
      self.given.borrow_mut().push(*b);
    }
  }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
  h.windows(n.len()).position(|w| w == n)
}

/// salt and nonce of a fresh encryption are two separate stretches of what the source gave for it
fn fresh(blob: &[u8], given: &[u8]) -> Result<(), String> {
  let (salt, nonce) = (&blob[..32], &blob[32..44]);
  let a = find(given, salt);
  let b = find(given, nonce);
  match (a, b) {
    (Some(a), Some(b)) => check!(a + 32 <= b || b + 12 <= a, "salt and nonce share random bytes"),
    (None, _) => bail!("the salt {} was not drawn from the random source ({} bytes drawn)", hex(salt), given.len()),
    _ => bail!("the nonce {} was not drawn from the random source ({} bytes drawn)", hex(nonce), given.len())
  }
  Ok(())
}

fn other_pass(s: &mut Src, p: &str) -> String {
  match s.below(12) {
    9..=11 => respell(s, p),
    0 => p.to_uppercase(),
    1 => format!("{} ", p),
    2 => format!(" {}", p),
    3 => {
      let n = p.chars().count();
      p.chars().take(n.saturating_sub(1)).collect()
    }
    4 => format!("{}{}", p, s.char()),
    5 => {
      let n = p.chars().count();
      if n == 0 {
        "x".into()
      } else {
        let k = s.idx(n);
        let c = s.char();
        p.chars().enumerate().map(|(i, x)| if i == k { c } else { x }).collect()
      }
    }
    6 => String::new(),
    7 => p.chars().rev().collect(),
    _ => gen_pass(s)
  }
}

fn roundtrip(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let src = Source { rng: RefCell::new(Rng(s.u64())), given: RefCell::new(vec![]) };
  let pass = gen_pass(s);
  let data = s.bytes_far(3000, 200_000);
  cx.nt();
  cx.label(if pass.len() > 128 { "password over one hash block" } else { "short password" });
  cx.note(|| format!("{} bytes under {:?}", data.len(), pass));
  let blob = guard("encrypting", || encrypt(&data, &pass, &src))?;
  check!(blob.len() == 60 + data.len(), "{} bytes encrypt to {}", data.len(), blob.len());
  fresh(&blob, &src.given.borrow())?;
  let open = aead::envelope_open(&blob, &pass);
  check!(open.as_deref() == Some(&data[..]), "an independent reader gets {:?}", open.map(|x| show(&x)));
  match guard("decrypting", || decrypt(&blob, &pass))? {
    Ok(d) => check!(d == data, "decrypts to {}", show(&d)),
    Err(e) => bail!("does not decrypt: {}", e)
  }
  // written by the independent implementation
  let salt = s.bytes_n(32);
  let nonce = s.bytes_n(12);
  let blob2 = aead::envelope_seal(&data, &pass, &salt, &nonce);
  match guard("decrypting", || decrypt(&blob2, &pass))? {
    Ok(d) => check!(d == data, "independent text decrypts to {}", show(&d)),
    Err(e) => bail!("independent text does not decrypt: {}", e)
  }
  // a second encryption of the same draws on the source again
  if s.chance(1, 2) {
    src.given.borrow_mut().clear();
    let again = encrypt(&data, &pass, &src);
    fresh(&again, &src.given.borrow())?;
    check!(again[..44] != blob[..44], "second encryption repeats salt and nonce");
    check!(again[60..] != blob[60..] || data.len() < 8, "second encryption repeats the ciphertext");
  }
  Ok(())
}

fn wrong(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let pass = gen_pass(s);
  let data = s.bytes(300);
  let (salt, nonce) = (s.rand_n(32), s.rand_n(12));
  let blob = aead::envelope_seal(&data, &pass, &salt, &nonce);
  cx.nt();
  cx.note(|| format!("{} bytes under {:?}", data.len(), pass));
  for _ in 0..3 {
    let mut b = blob.clone();
    let mut q = pass.clone();
    match s.below(7) {
      0 | 1 => {
        q = other_pass(s, &pass);
        if same_password(&q, &pass) {
          continue;
        }
        cx.label("password");
        cx.note(|| format!("other password {:?}", q));
      }
      2 | 3 => {
        let i = match s.below(4) {
          0 => s.idx(32),
          1 => 32 + s.idx(12),
          2 => 44 + s.idx(16),
          _ => s.idx(b.len())
        };
        b[i] ^= 1 << s.below(8);
        cx.label("bit flipped");
        cx.note(|| format!("bit flipped in byte {}", i));
      }
      4 => {
        let i = s.idx(b.len());
        let k = s.range(1, 20).min((b.len() - i) as u64) as usize;
        b.drain(i..i + k);
        cx.label("bytes removed");
        cx.note(|| format!("{} bytes removed at {}", k, i));
      }
      5 => {
        let i = if s.bool() { b.len() } else { s.idx(b.len() + 1) };
        let n = s.range(1, 20) as usize;
        let x = s.bytes_n(n);
        b.splice(i..i, x.clone());
        cx.label("bytes added");
        cx.note(|| format!("{} added at {}", hex(&x), i));
      }
      _ => {
        let i = s.idx(b.len());
        let n = b.len();
        let k = s.range(1, 16) as usize;
        for x in b[i..n.min(i + k)].iter_mut() {
          *x = s.u8();
        }
        cx.label("bytes changed");
        cx.note(|| format!("bytes from {} changed", i));
      }
    }
    if b == blob && q == pass {
      continue;
    }
    match guard("decrypting", || decrypt(&b, &q))? {
      Ok(d) => bail!("decrypts to {} ({})", show(&d), if d == data { "the data" } else { "other bytes" }),
      Err(DecryptError::NotEnoughData) => check!(b.len() < 60, "{} bytes are reported as too few", b.len()),
      Err(DecryptError::DecryptionFailed) => check!(b.len() >= 60, "{} bytes are tried as a wrong password", b.len())
    }
  }
  Ok(())
}

fn short(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.below(64) as usize;
  let pass = gen_pass(s);
  cx.nt();
  cx.note(|| format!("{} bytes", n));
  if n < 60 {
    for _ in 0..4 {
      let b = s.bytes_n(n);
      match guard("decrypting", || decrypt(&b, &pass))? {
        Ok(d) => bail!("{} bytes decrypt to {}", n, show(&d)),
        Err(DecryptError::NotEnoughData) => {}
        Err(e) => bail!("{} bytes: {}", n, e)
      }
    }
  } else {
    // the smallest texts there are
    let data = s.bytes_n(n - 60);
    let (salt, nonce) = (s.rand_n(32), s.rand_n(12));
    let b = aead::envelope_seal(&data, &pass, &salt, &nonce);
    match guard("decrypting", || decrypt(&b, &pass))? {
      Ok(d) => check!(d == data, "decrypts to {}", show(&d)),
      Err(e) => bail!("the encryption of {} bytes does not decrypt: {}", n - 60, e)
    }
    let mut c = b.clone();
    let i = s.idx(c.len());
    c[i] ^= 1 << s.below(8);
    check!(guard("decrypting", || decrypt(&c, &pass))?.is_err(), "changed byte {} accepted", i);
  }
  Ok(())
}

/// the wallet manager's own encryptions draw everything from the operating system
fn manager_fresh(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let m = manager(7)?;
  let seed = s.rand_n(64);
  let mut pass = gen_pass(s);
  cx.nt();
  cx.note(|| format!("wallet of seed {}", hex(&seed)));
  let take = |b: &[u8]| -> Result<(), String> {
    let g = crate::osrand::log();
    crate::osrand::clear();
    fresh(b, &g)
  };
  let ms = manager(1 + s.below(3) as u32)?;
  crate::osrand::clear();
  let mut blob = ms.keychain_data_from_seed(&seed, &pass).map_err(|e| format!("{}", e))?;
  take(&blob)?;
  let mut seen = vec![blob[..44].to_vec()];
  for _ in 0..s.range(1, 4) {
    if s.bool() {
      let np = if s.chance(1, 3) { pass.clone() } else { gen_pass(s) };
      crate::osrand::clear();
      blob = m.change_password(&blob, &pass, &np).map_err(|e| format!("{}", e))?;
      pass = np;
      cx.label("password changed");
    } else {
      crate::osrand::clear();
      blob = match m.add_network(&blob, &pass, net(2)) {
        Ok(b) => b,
        Err(keychain::Error::KeyAlreadyExist(_)) => continue,
        Err(e) => bail!("{}", e)
      };
      cx.label("network added");
    }
    take(&blob)?;
    for o in &seen {
      check!(o[..32] != blob[..32], "a salt is used again");
      check!(o[32..44] != blob[32..44], "a nonce is used again");
    }
    seen.push(blob[..44].to_vec());
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C11",
    subs: vec![
      Sub {
        name: "roundtrip",
        rule: "data of 0..3000 bytes, at times up to 200000, and passwords of 0..300 characters, at times with blanks, controls or composed characters at an end, encrypted by the library and by the reference, each read by the other; salt and nonce looked up in the recorded random source",
        quick: 480,
        thorough: 120_000,
        enumerate: None,
        f: roundtrip
      },
      Sub {
        name: "wrong",
        rule: "three of: near-miss passwords, flipped bits in salt, nonce, tag and text, removed and added bytes",
        quick: 560,
        thorough: 150_000,
        enumerate: None,
        f: wrong
      },
      Sub {
        name: "short",
        rule: "every length 0..63",
        quick: 0,
        thorough: 0,
        enumerate: Some(64),
        f: short
      },
      Sub {
        name: "manager_fresh",
        rule: "wallet creation, password changes (to the same password too) and network additions; every salt and nonce looked up in the operating system's recorded randomness and compared with all earlier ones",
        quick: 160,
        thorough: 40_000,
        enumerate: None,
        f: manager_fresh
      }
    ]
  }
}
