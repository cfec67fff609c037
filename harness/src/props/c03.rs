use crate::common::*;
use crate::engine::*;
use crate::refimpl::{bip39 as rb, hash};
use bip39::dictionary::{Error as DE, Language as _};
use bip39::MnemonicIndex;

fn lists(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let k = s.below(8 * 2048) as usize;
  let (l, i) = (k / 2048, k % 2048);
  let want = rb::words(l)[i];
  cx.nt();
  cx.note(|| format!("{} word {} {}", rb::NAMES[l], i, want));
  for (who, d) in [("bundled list", dict(l)), ("wallet language", LANGS[l].to_dict())] {
    check!(d.words.len() == 2048, "{} has {} words", who, d.words.len());
    check!(d.words[i] == want, "{}: {} word {} is {:?}, published {:?}", who, rb::NAMES[l], i, d.words[i], want);
    check!(d.name() == rb::NAMES[l], "{} is named {}", who, d.name());
    check!(d.separator() == " ", "{} separates with {:?}", who, d.separator());
    let m = MnemonicIndex::new(i as u16).map_err(|e| format!("{}", e))?;
    check!(d.lookup_word(m) == Ok(want.to_string()), "{}: word {} looked up as {:?}", who, i, d.lookup_word(m));
    check!(d.lookup_mnemonic(want) == Ok(m), "{}: {:?} looked up as {:?}", who, want, d.lookup_mnemonic(want));
  }
  let d = dict(l);
  let m = MnemonicIndex(i as u16);
  check!(MnemonicIndex::from_word(d, want) == Ok(m), "word {:?} has number {:?}", want, MnemonicIndex::from_word(d, want));
  struct Wrap(usize);
  impl bip39::dictionary::Language for Wrap {
    fn name(&self) -> &'static str {
      ""
    }
    fn separator(&self) -> &'static str {
      " "
    }
    fn lookup_mnemonic(&self, w: &str) -> bip39::dictionary::Result<MnemonicIndex> {
      dict(self.0).lookup_mnemonic(w)
    }
    fn lookup_word(&self, m: MnemonicIndex) -> bip39::dictionary::Result<String> {
      dict(self.0).lookup_word(m)
    }
  }
  check!(m.to_word(&Wrap(l)) == want, "number {} is {:?}", i, m.to_word(&Wrap(l)));
  Ok(())
}

fn whole(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.below(8) as usize;
  cx.nt();
  cx.note(|| format!("SHA-256 of the {} list", rb::NAMES[l]));
  let file = |d: &bip39::dictionary::DefaultDictionary| {
    let mut t = d.words.join("\n");
    t.push('\n');
    hex(&hash::sha256(t.as_bytes()))
  };
  check!(file(dict(l)) == rb::PUBLISHED[l], "{} list hashes to {}, published {}", rb::NAMES[l], file(dict(l)), rb::PUBLISHED[l]);
  check!(file(LANGS[l].to_dict()) == rb::PUBLISHED[l], "language {:?} selects another list", LANGS[l]);
  check!(LANGS[l] as usize == l, "language {:?} has number {}", LANGS[l], LANGS[l] as usize);
  check!(keychain::Language::default() == keychain::Language::English, "default language is not English");
  // through a wallet: only this language's words are known
  let m = manager(7)?;
  let e = s.bytes_n(16);
  for l2 in 0..8 {
    let p = rb::phrase(l2, &rb::encode(&e));
    let want = rb::parse(l, &p).is_ok();
    match m.keychain_data_from_mnemonic(&p, "", Some(LANGS[l])) {
      Ok(_) => check!(want, "{} phrase accepted as {}", rb::NAMES[l2], rb::NAMES[l]),
      Err(x) => check!(!want, "{} phrase refused: {}", rb::NAMES[l2], x)
    }
  }
  let g = m.generate_mnemonic(Some(LANGS[l])).map_err(|e| format!("{}", e))?;
  check!(rb::parse(l, &g).is_ok(), "phrase generated for {}: {:?}", rb::NAMES[l], g);
  Ok(())
}

fn foreign(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.idx(8);
  let w = rb::words(l)[s.idx(2048)];
  let t: String = match s.below(9) {
    0 => w.to_uppercase(),
    1 => w.chars().take(s.range(0, 5) as usize).collect(),
    2 => format!("{}{}", w, s.char()),
    3 => format!("{}{}", s.char(), w),
    4 => s.text(12),
    5 => {
      let l2 = s.idx(8);
      rb::words(l2)[s.idx(2048)].to_string()
    }
    6 => {
      let n = w.chars().count();
      let k = s.idx(n);
      let c = s.char();
      w.chars().enumerate().map(|(i, x)| if i == k { c } else { x }).collect()
    }
    7 => w.chars().rev().collect(),
    _ => format!("{}{}", w, rb::words(l)[s.idx(2048)])
  };
  cx.note(|| format!("{} word {:?}", rb::NAMES[l], t));
  match rb::index(l, &t) {
    Some(i) => check!(dict(l).lookup_mnemonic(&t) == Ok(MnemonicIndex(i)), "{:?} is word {}", t, i),
    None => {
      cx.nt();
      let r = dict(l).lookup_mnemonic(&t);
      check!(r == Err(DE::MnemonicWordNotFoundInDictionary(t.clone())), "{:?} looked up as {:?}", t, r);
    }
  }
  Ok(())
}

/// a list of the caller's, of any words in any order under any name
fn own(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.idx(8);
  let mut w: [&'static str; 2048] = dict(l).words;
  let mut r = Rng(s.u64());
  let mut said = String::new();
  for _ in 0..s.below(3) {
    match s.below(6) {
      0 => {
        w.reverse();
        said += " reversed";
      }
      1 => {
        w.rotate_left(s.idx(2048));
        said += " rotated";
      }
      2 => {
        for i in (1..2048).rev() {
          w.swap(i, r.below(i as u64 + 1) as usize);
        }
        said += " shuffled";
      }
      3 => {
        for _ in 0..s.range(1, 40) {
          w.swap(s.idx(2048), s.idx(2048));
        }
        said += " swapped";
      }
      4 => {
        w.sort();
        said += " sorted";
      }
      _ => {
        // words of another language among them
        let l2 = s.idx(8);
        let from = s.idx(2048);
        let to = from + s.idx(2049 - from);
        let others: Vec<&'static str> = dict(l2).words.iter().filter(|x| rb::index(l, x).is_none()).cloned().collect();
        for i in from..to.min(others.len()) {
          w[i] = others[i];
        }
        said += " mixed";
      }
    }
  }
  let name: &'static str = match s.below(3) {
    0 => rb::NAMES[l],
    1 => rb::NAMES[s.idx(8)],
    _ => *s.choose(&["", "own", "English", "klingon"])
  };
  cx.note(|| format!("list of {}{} named {:?}", rb::NAMES[l], said, name));
  if !said.is_empty() {
    cx.nt();
  }
  let d = bip39::dictionary::DefaultDictionary { words: w, name };
  check!(d.name() == name, "named {:?}", d.name());
  let find = |x: &str| w.iter().position(|y| *y == x);
  for _ in 0..8 {
    let i = s.idx(2048);
    let m = MnemonicIndex::new(i as u16).map_err(|e| format!("{}", e))?;
    check!(d.lookup_word(m) == Ok(w[i].to_string()), "word {} is {:?} instead of {:?}", i, d.lookup_word(m), w[i]);
    let first = find(w[i]).unwrap();
    check!(d.lookup_mnemonic(w[i]) == Ok(MnemonicIndex(first as u16)), "{:?} looked up as {:?} instead of {}", w[i], d.lookup_mnemonic(w[i]), first);
    let l2 = s.idx(8);
    let x = rb::words(l2)[s.idx(2048)];
    let want = find(x).map(|i| MnemonicIndex(i as u16)).ok_or(DE::MnemonicWordNotFoundInDictionary(x.to_string()));
    check!(d.lookup_mnemonic(x) == want, "{:?} looked up as {:?} instead of {:?}", x, d.lookup_mnemonic(x), want);
  }
  // phrases are written and read with it (a word twice in the list is read as the first of the two)
  let e = gen_entropy(s);
  let m = bip39::Entropy::from_slice(&e).map_err(|e| format!("{}", e))?.to_mnemonics();
  let words: Vec<&str> = rb::encode(&e).iter().map(|i| w[*i as usize]).collect();
  let t = m.to_string(&d);
  check!(t.as_ref() as &str == words.join(" "), "entropy {} written as {:?}, not {:?}", hex(&e), t, words.join(" "));
  if words.iter().zip(rb::encode(&e)).all(|(x, i)| find(x) == Some(i as usize)) {
    check!(bip39::Mnemonics::from_string(&d, &t) == Ok(m), "{:?} is not read back", t);
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C03",
    subs: vec![
      Sub {
        name: "lists",
        rule: "all 8 x 2048 words, both directions, as bundled list and as the wallet language's list",
        quick: 0,
        thorough: 0,
        enumerate: Some(8 * 2048),
        f: lists
      },
      Sub {
        name: "whole",
        rule: "each list hashed as the published file; the wallet accepts exactly this language's phrases",
        quick: 0,
        thorough: 0,
        enumerate: Some(8),
        f: whole
      },
      Sub {
        name: "foreign",
        rule: "near misses of listed words; non-trivial: not in the list",
        quick: 400_000,
        thorough: 20_000_000,
        enumerate: None,
        f: foreign
      },
      Sub {
        name: "own",
        rule: "a caller's own list (a bundled one reversed, rotated, shuffled, sorted, with swaps, mixed with another), under any name, both ways and in phrases; non-trivial: not a bundled list",
        quick: 40_000,
        thorough: 2_000_000,
        enumerate: None,
        f: own
      }
    ]
  }
}
