use crate::common::*;
use crate::engine::*;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{Error, Key, KeyError, KeyPath, Keychain};
use std::cell::RefCell;

/// values of the components that make the path unacceptable
fn offending(n: usize, p: &P) -> Vec<(&'static str, u32)> {
  let mut v = Vec::new();
  if n != 0 && p.0[0] != P44 {
    v.push(("purpose", p.0[0]));
  }
  if p.0[1] != COINS[n] {
    v.push(("coin", p.0[1]));
  }
  if p.0[2] < HARD {
    v.push(("account", p.0[2]));
  }
  if p.0[3] > 1 {
    v.push(("change", p.0[3]));
  }
  if p.0[4] >= HARD {
    v.push(("address", p.0[4]));
  }
  v
}

fn judge(what: &str, n: usize, p: &P, e: &Error) -> Result<(), String> {
  match e {
    Error::KeyError(nt, KeyError::InvalidKeyPath(kp)) => {
      check!(*nt == net(n), "{}: error for network {}", what, nt);
      let t = format!("{}", kp).to_lowercase();
      let off = offending(n, p);
      check!(
        off.iter().any(|(c, v)| t.contains(c) && has_number(&t, *v as u64)),
        "{} of {}: the error '{}' names none of {:?}",
        what,
        p.text(),
        kp,
        off
      );
      let full = format!("{}", e);
      check!(off.iter().any(|(_, v)| has_number(&full, *v as u64)), "{}: the message '{}' names none of {:?}", what, full, off);
    }
    other => bail!("{} of {}: {}", what, p.text(), other)
  }
  Ok(())
}

thread_local! {
  static KEYS: RefCell<Vec<Keychain>> = const { RefCell::new(Vec::new()) };
}

/// one wallet with all networks, reused: the policy does not depend on the seed
fn with_keys<T>(f: impl FnOnce(&Keychain) -> Result<T, String>) -> Result<T, String> {
  KEYS.with(|k| {
    if k.borrow().is_empty() {
      let seed: Vec<u8> = (0..64).collect();
      let keys: Result<Vec<Box<dyn Key>>, String> = (0..3).map(|n| key_of(n, &seed)).collect();
      k.borrow_mut().push(Keychain::new(keys?));
    }
    f(&k.borrow()[0])
  })
}

fn policy(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(3);
  let mut p = gen_path(s, n);
  for _ in 0..s.weighted(&[2, 6, 2, 1]) {
    let i = s.idx(5);
    p.0[i] = match s.below(4) {
      0 => s.u32_any(),
      1 => p.0[i] ^ HARD,
      2 => COINS[s.idx(3)],
      _ => p.0[i].wrapping_add(1).wrapping_sub(2 * s.below(2) as u32)
    };
  }
  let ok = path_ok(n, &p);
  cx.label(if ok { "accepted" } else { "refused" });
  if !ok {
    cx.nt();
  }
  cx.note(|| format!("{} {} ({})", NET_NAMES[n], p.text(), if ok { "acceptable" } else { "not acceptable" }));
  with_keys(|kc| {
    for (what, f) in super::c07::forms(&p) {
      let f: &dyn KeyPath = f.as_ref();
      let nt = net(n);
      let a = guard("public key", || kc.pub_key(&nt, f))?;
      let b = guard("sign", || kc.sign(&nt, b"message", f))?;
      let junk = [7u8; 64];
      let c = guard("verify", || kc.verify(&nt, b"message", &junk, f))?;
      if ok {
        if let Err(e) = &a {
          bail!("public key of {} ({}) refused: {}", p.text(), what, e)
        }
        let sig = match b {
          Ok(s) => s,
          Err(e) => bail!("signing at {} ({}) refused: {}", p.text(), what, e)
        };
        match c {
          Ok(v) => check!(!v, "junk verifies"),
          Err(e) => bail!("verifying at {} ({}) refused: {}", p.text(), what, e)
        }
        match kc.verify(&nt, b"message", &sig[..64], f) {
          Ok(v) => check!(v, "own signature at {} does not verify", p.text()),
          Err(e) => bail!("verifying at {} refused: {}", p.text(), e)
        }
      } else {
        match a {
          Ok(_) => bail!("{} gives a {} public key", p.text(), NET_NAMES[n]),
          Err(e) => judge("public key", n, &p, &e)?
        }
        match b {
          Ok(_) => bail!("{} gives a {} signature", p.text(), NET_NAMES[n]),
          Err(e) => judge("signature", n, &p, &e)?
        }
        match c {
          Ok(_) => bail!("{} verifies a {} signature", p.text(), NET_NAMES[n]),
          Err(e) => judge("verification", n, &p, &e)?
        }
      }
    }
    Ok(())
  })
}

fn constructors(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let which = s.below(6);
  let t = s.bool();
  let acc = if s.chance(3, 4) { gen_index(s) } else { s.u32_any() };
  let ch = if s.chance(3, 4) { s.below(2) as u32 } else { s.u32_any() };
  let adr = if s.chance(3, 4) { gen_index(s) } else { s.u32_any() };
  let (ok_a, ok_c, ok_d) = (acc < HARD, ch < 2, adr < HARD);
  let coin = |t: bool| if t { COINS[0] + 1 } else { COINS[0] };
  fn bx<K: KeyPath + 'static, E: std::fmt::Display>(r: Result<K, E>) -> Result<Box<dyn KeyPath>, String> {
    r.map(|k| Box::new(k) as Box<dyn KeyPath>).map_err(|e| format!("{}", e))
  }
  let three = ok_a && ok_c && ok_d;
  let mut off3 = Vec::new();
  if !ok_a {
    off3.push(("account", acc));
  }
  let mut off1 = off3.clone();
  if !ok_c {
    off3.push(("change", ch));
  }
  if !ok_d {
    off3.push(("address", adr));
  }
  let (name, got, ok, want, off) = match which {
    0 => (
      "bitcoin bip44",
      guard("constructor", || bx(bitcoin::KeyPath::bip44(t, acc, ch, adr)))?,
      three,
      P([P44, coin(t), acc | HARD, ch, adr]),
      off3
    ),
    1 => (
      "bitcoin bip49",
      guard("constructor", || bx(bitcoin::KeyPath::bip49(t, acc, ch, adr)))?,
      three,
      P([HARD + 49, coin(t), acc | HARD, ch, adr]),
      off3
    ),
    2 => (
      "bitcoin bip84",
      guard("constructor", || bx(bitcoin::KeyPath::bip84(t, acc, ch, adr)))?,
      three,
      P([HARD + 84, coin(t), acc | HARD, ch, adr]),
      off3
    ),
    3 => (
      "cardano",
      guard("constructor", || bx(cardano::KeyPath::new(acc, ch, adr)))?,
      three,
      P([P44, COINS[2], acc | HARD, ch, adr]),
      off3
    ),
    4 => (
      "ethereum",
      guard("constructor", || bx(ethereum::KeyPath::new(acc)))?,
      ok_a,
      P([P44, COINS[1], acc | HARD, 0, 0]),
      off1
    ),
    _ => {
      if !ok_a {
        off1.push(("address", acc));
      }
      (
        "ethereum metamask",
        guard("constructor", || bx(ethereum::KeyPath::new_metamask(acc)))?,
        ok_a,
        P([P44, COINS[1], HARD, 0, acc]),
        off1
      )
    }
  };
  if !ok {
    cx.nt();
  }
  cx.label(name);
  cx.note(|| format!("{}: testnet {} account {} change {} address {}", name, t, acc, ch, adr));
  match got {
    Ok(k) => {
      let g = P::of(k.as_ref());
      check!(ok, "{}: account {} change {} address {} accepted as {}", name, acc, ch, adr, g.text());
      check!(g == want, "{}: {} instead of {}", name, g.text(), want.text());
    }
    Err(e) => {
      check!(!ok, "{}: account {} change {} address {} refused: {}", name, acc, ch, adr, e);
      let l = e.to_lowercase();
      check!(
        off.iter().any(|(c, v)| l.contains(c) && has_number(&l, *v as u64)),
        "{}: the error '{}' names none of {:?}",
        name,
        e,
        off
      );
    }
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C09",
    subs: vec![
      Sub {
        name: "policy",
        rule: "accepted paths with 0..3 components replaced (boundaries, other coins, flipped hardening), through every path type that can express them; public key, sign and verify against the stated policy; non-trivial: to be refused",
        quick: 38_000,
        thorough: 4_000_000,
        enumerate: None,
        f: policy
      },
      Sub {
        name: "constructors",
        rule: "all six path constructors with boundary and random arguments; non-trivial: to be refused",
        quick: 1_500_000,
        thorough: 60_000_000,
        enumerate: None,
        f: constructors
      }
    ]
  }
}
