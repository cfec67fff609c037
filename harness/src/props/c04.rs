use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use bip39::{MnemonicString, Seed, SEED_SIZE};

fn derive(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let e = gen_entropy(s);
  let l = s.idx(8);
  // a checksum is not needed for a seed
  let mut idx = rb::encode(&e);
  if s.chance(1, 4) {
    let i = s.idx(idx.len());
    idx[i] = s.below(2048) as u16;
  }
  let text = rb::phrase(l, &idx);
  let pass = s.bytes_far(400, 100_000);
  cx.nt();
  cx.label(if text.len() > 128 { "phrase over one hash block" } else { "phrase within one hash block" });
  cx.note(|| format!("{} phrase {:?} passphrase {}", rb::NAMES[l], text, show(&pass)));
  let ms = MnemonicString::new(dict(l), text.clone()).map_err(|x| format!("valid phrase refused: {}", x))?;
  let got = Seed::from_mnemonic_string(&ms, &pass);
  let want = rb::seed(&text, &pass);
  check!(got.as_ref() == &want[..], "seed {} instead of {}", hex(got.as_ref()), hex(&want));
  let m = bip39::Mnemonics::from_string(dict(l), &text).map_err(|x| format!("{}", x))?;
  check!(Seed::from_mnemonic_string(&m.to_string(dict(l)), &pass) == got, "seed of the re-printed phrase differs");
  check!(&*ms == text, "phrase changed to {:?}", &*ms);
  Ok(())
}

/// several seeds in a row, each near the one before: the same texts cut elsewhere, one byte or word apart
fn history(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.idx(8);
  let idx: Vec<u16> = (0..24).map(|_| s.below(2048) as u16).collect();
  let pass = s.bytes(40);
  let mut calls: Vec<(usize, Vec<u16>, Vec<u8>)> = vec![];
  for k in 0..s.range(2, 5) {
    let (mut l2, mut i2, mut p2) = match calls.last() {
      Some(x) if s.bool() => x.clone(),
      _ => (l, idx.clone(), pass.clone())
    };
    match s.below(7) {
      // the phrase ends earlier, the passphrase goes on with its words
      0 | 1 => {
        let n = *s.choose(&rb::COUNTS);
        if n < i2.len() {
          let all = rb::phrase(l2, &i2);
          let head = rb::phrase(l2, &i2[..n]);
          let mut q = all.as_bytes()[head.len()..].to_vec();
          q.extend_from_slice(&p2);
          p2 = q;
          i2.truncate(n);
        }
      }
      2 => {
        let at = s.idx(i2.len());
        i2[at] = s.below(2048) as u16;
      }
      3 => {
        if !p2.is_empty() {
          let at = s.idx(p2.len());
          p2[at] ^= 1 << s.below(8);
        }
      }
      4 => {
        let n = s.len(p2.len() + 1).min(p2.len());
        p2.truncate(n);
      }
      5 => p2.extend_from_slice(&s.bytes(8)),
      _ => l2 = s.idx(8)
    }
    if k == 0 && !rb::COUNTS.contains(&i2.len()) {
      i2.truncate(12);
    }
    calls.push((l2, i2, p2));
  }
  cx.nt();
  cx.note(|| calls.iter().map(|c| format!("{:?} with passphrase {}", rb::phrase(c.0, &c.1), show(&c.2))).collect::<Vec<_>>().join("; then "));
  for (k, (l, i, p)) in calls.iter().enumerate() {
    let text = rb::phrase(*l, i);
    let ms = MnemonicString::new(dict(*l), text.clone()).map_err(|x| format!("valid phrase refused: {}", x))?;
    let got = Seed::from_mnemonic_string(&ms, p);
    let want = rb::seed(&text, p);
    check!(got.as_ref() == &want[..], "call {}: seed {} instead of {}", k, hex(got.as_ref()), hex(&want));
  }
  Ok(())
}

fn raw(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.below(400) as usize;
  let b = s.bytes_n(n);
  cx.nt();
  cx.note(|| format!("{} raw bytes", n));
  check!(SEED_SIZE == 64, "seed size is {}", SEED_SIZE);
  match Seed::from_slice(&b) {
    Ok(x) => {
      check!(n == 64, "{} bytes accepted as a seed", n);
      check!(x.as_ref() == &b[..] && &x[..] == &b[..], "seed bytes changed to {}", x);
      check!(format!("{}", x) == hex(&b) && format!("{:?}", x) == hex(&b), "seed printed as {}", x);
      let mut a = [0u8; 64];
      a.copy_from_slice(&b);
      check!(Seed::from_bytes(a) == x, "the same bytes give different seeds");
      let i = s.idx(64);
      a[i] ^= 1 << s.below(8);
      check!(Seed::from_bytes(a) != x, "different bytes compare as the same seed");
    }
    Err(e) => {
      check!(n != 64, "64 bytes refused: {}", e);
      check!(e == bip39::Error::InvalidSeedSize(n), "{} bytes refused with {:?}", n, e);
    }
  }
  if n != 64 {
    match manager(1 + s.below(7) as u32)?.keychain_data_from_seed(&b, "pw") {
      Ok(_) => bail!("a wallet was made from a {}-byte seed", n),
      Err(keychain::Error::InvalidSeedSize(k)) => check!(k == n, "{} bytes reported as {}", n, k),
      Err(e) => bail!("{}-byte seed refused with {}", n, err_kind(&e))
    }
  }
  Ok(())
}

/// what the wallet hands to a network: seen through a network of our own
fn wallet(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let words = *s.choose(&rb::COUNTS);
  let from_phrase = s.chance(3, 4);
  let log = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
  let f = super::plug::Plug::new(0x1234, words / 3 * 32, 100_000, log.clone());
  let m = keychain::KeychainManager::with_factories(vec![Box::new(f)]).map_err(|e| format!("manager refused: {}", e))?;
  cx.nt();
  // more than one wallet from the same manager
  for _ in 0..s.below(3) {
    log.borrow_mut().clear();
    let (l, _, text) = gen_phrase(s, words);
    m.keychain_data_from_mnemonic(&text, "pw", Some(LANGS[l])).map_err(|e| format!("phrase of the right size refused: {}", e))?;
    let got = log.borrow();
    check!(got.len() == 1 && got[0] == rb::seed(&text, b""), "for an earlier phrase {:?} the network was given {:?}", text, got.iter().map(|x| hex(x)).collect::<Vec<_>>());
  }
  log.borrow_mut().clear();
  if from_phrase {
    let (l, _, text) = gen_phrase(s, words);
    cx.note(|| format!("wallet from {} phrase {:?}", rb::NAMES[l], text));
    let lang = if l == 0 && s.bool() { None } else { Some(LANGS[l]) };
    m.keychain_data_from_mnemonic(&text, "pw", lang).map_err(|e| format!("phrase of the right size refused: {}", e))?;
    let want = rb::seed(&text, b"");
    let got = log.borrow();
    check!(got.len() == 1 && got[0] == want, "the network was given {:?} instead of {}", got.iter().map(|x| hex(x)).collect::<Vec<_>>(), hex(&want));
  } else {
    let seed = gen_seed(s);
    cx.note(|| format!("wallet from seed {}", hex(&seed)));
    m.keychain_data_from_seed(&seed, "pw").map_err(|e| format!("64-byte seed refused: {}", e))?;
    let got = log.borrow();
    check!(got.len() == 1 && got[0] == seed, "the network was given {:?}", got.iter().map(|x| hex(x)).collect::<Vec<_>>());
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C04",
    subs: vec![
      Sub {
        name: "derive",
        rule: "phrases of all sizes and languages (right and wrong checksums) with passphrases of 0..400 arbitrary bytes against reference PBKDF2",
        quick: 9_000,
        thorough: 1_000_000,
        enumerate: None,
        f: derive
      },
      Sub {
        name: "history",
        rule: "2..5 seeds in a row whose phrases and passphrases are near each other (cut elsewhere, one word, byte or language apart) against reference PBKDF2",
        quick: 2_000,
        thorough: 200_000,
        enumerate: None,
        f: history
      },
      Sub {
        name: "raw",
        rule: "raw seeds of every length 0..399",
        quick: 0,
        thorough: 0,
        enumerate: Some(400),
        f: raw
      },
      Sub {
        name: "wallet",
        rule: "the seed a wallet hands to a custom network, from phrases of all sizes and raw seeds",
        quick: 1_200,
        thorough: 60_000,
        enumerate: None,
        f: wallet
      }
    ]
  }
}
