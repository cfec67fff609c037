use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use bip39::dictionary::DefaultDictionary;
use bip39::{Entropy, Mnemonics, MnemonicString, Type};
use std::cell::RefCell;

/// a user's own dictionary: the words of a bundled one with another separator
pub struct Custom(pub &'static DefaultDictionary, pub &'static str);
impl bip39::dictionary::Language for Custom {
  fn name(&self) -> &'static str {
    "custom"
  }
  fn separator(&self) -> &'static str {
    self.1
  }
  fn lookup_mnemonic(&self, w: &str) -> bip39::dictionary::Result<bip39::MnemonicIndex> {
    self.0.lookup_mnemonic(w)
  }
  fn lookup_word(&self, m: bip39::MnemonicIndex) -> bip39::dictionary::Result<String> {
    self.0.lookup_word(m)
  }
}
pub const SEPS: [&str; 5] = ["\u{3000}", ", ", "|", "\n", "  "];

pub fn variant(e: &[u8]) -> Entropy {
  macro_rules! mk {
    ($v:ident, $n:expr) => {{
      let mut a = [0u8; $n];
      a.copy_from_slice(e);
      Entropy::$v(a)
    }};
  }
  match e.len() {
    12 => mk!(Entropy9, 12),
    16 => mk!(Entropy12, 16),
    20 => mk!(Entropy15, 20),
    24 => mk!(Entropy18, 24),
    28 => mk!(Entropy21, 28),
    _ => mk!(Entropy24, 32)
  }
}

fn lossless(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let e = gen_entropy(s);
  let l = s.idx(8);
  cx.nt();
  cx.label(rb::NAMES[l]);
  cx.note(|| format!("entropy {} in {}", hex(&e), rb::NAMES[l]));
  let want = rb::encode(&e);
  let text = rb::phrase(l, &want);
  let k = rb::SIZES.iter().position(|x| *x == e.len()).unwrap();
  let t = types()[k];
  let ent = Entropy::from_slice(&e).map_err(|x| format!("entropy of {} bits refused: {}", e.len() * 8, x))?;
  check!(ent.as_ref() == &e[..], "entropy object holds {} instead of {}", hex(ent.as_ref()), hex(&e));
  check!(&ent[..] == &e[..], "dereferencing the entropy gives other bytes");
  check!(ent == variant(&e), "entropy read from a slice differs from the one built directly");
  check!(ent.get_type() == t, "type {:?} for {} bytes", ent.get_type(), e.len());
  let cs = rb::checksum(&e);
  check!(ent.checksum() == cs, "checksum {:b}, BIP-39 has {:b}", ent.checksum(), cs);
  check!(format!("{}", ent) == hex(&e) && format!("{:?}", ent) == hex(&e), "printed entropy is {}", ent);
  let m = ent.to_mnemonics();
  let got: Vec<u16> = m.as_ref().iter().map(|x| x.0).collect();
  check!(got == want, "word numbers {:?}, BIP-39 has {:?}", got, want);
  check!(m.get_type() == t, "phrase type {:?} for {} words", m.get_type(), want.len());
  let p = m.to_string(dict(l));
  check!(&*p == text, "phrase '{}', BIP-39 has '{}'", &*p, text);
  check!(format!("{}", p) == text, "the printed phrase differs");
  // decode from independent text and from the library's own
  let m2 = Mnemonics::from_string(dict(l), &text).map_err(|x| format!("valid phrase refused: {}", x))?;
  check!(m2 == m, "reading the phrase gives word numbers {:?}", m2);
  let ms = MnemonicString::new(dict(l), text.clone()).map_err(|x| format!("valid phrase refused: {}", x))?;
  check!(&*ms == text, "the checked phrase is '{}'", &*ms);
  let back = Entropy::from_mnemonics(&m2).map_err(|x| format!("valid phrase does not decode: {}", x))?;
  check!(back.as_ref() == &e[..], "decoded entropy {} instead of {}", hex(back.as_ref()), hex(&e));
  let own = Entropy::from_mnemonics(&m).map_err(|x| format!("own phrase does not decode: {}", x))?;
  check!(own == ent, "decoding the library's own phrase gives {}", own);
  let idx: Vec<bip39::MnemonicIndex> = want.iter().map(|i| bip39::MnemonicIndex::new(*i).unwrap()).collect();
  let m3 = Mnemonics::from_mnemonics(idx).map_err(|x| format!("valid word numbers refused: {}", x))?;
  check!(m3 == m, "phrase built from word numbers differs");
  // another dictionary object, with its own separator
  if s.chance(1, 2) {
    let sep = *s.choose(&SEPS);
    let d = Custom(dict(l), sep);
    let t2 = want.iter().map(|i| rb::words(l)[*i as usize]).collect::<Vec<_>>().join(sep);
    let p2 = m.to_string(&d);
    check!(&*p2 == t2, "with separator {:?} the phrase is {:?}", sep, &*p2);
    let m4 = Mnemonics::from_string(&d, &t2).map_err(|x| format!("phrase with separator {:?} refused: {}", sep, x))?;
    check!(m4 == m, "phrase with separator {:?} reads as {:?}", sep, m4);
    cx.label("custom separator");
  }
  Ok(())
}

fn sizes(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.below(1200) as usize;
  let bits = n * 8;
  cx.nt();
  cx.note(|| format!("{} bytes", n));
  let b = s.bytes_n(n);
  let good = rb::SIZES.contains(&n);
  match Entropy::from_slice(&b) {
    Ok(e) => check!(good && e.as_ref() == &b[..], "entropy of {} bits accepted or altered", bits),
    Err(e) => {
      check!(!good, "entropy of {} bits refused: {}", bits, e);
      check!(e == bip39::Error::WrongKeySize(bits), "{} bits refused with {:?}", bits, e);
      check!(has_number(&format!("{}", e), bits as u64), "the error for {} bits is '{}'", bits, e);
    }
  }
  // the sizes a type stands for
  let k = match s.weighted(&[2, 1]) {
    0 => n,
    _ => s.u64() as usize
  };
  match Type::from_entropy_size(k) {
    Ok(t) => {
      check!(k % 8 == 0 && rb::SIZES.contains(&(k / 8)), "{} bits accepted as {:?}", k, t);
      check!(t.to_key_size() == k && t.mnemonic_count() == k / 32 * 3 && t.checksum_size_bits() == k / 32,
        "{:?}: {} bits, {} words, {} checksum bits", t, t.to_key_size(), t.mnemonic_count(), t.checksum_size_bits());
    }
    Err(e) => {
      check!(!(k % 8 == 0 && rb::SIZES.contains(&(k / 8))), "{} bits refused", k);
      check!(e == bip39::Error::WrongKeySize(k), "{} bits refused with {:?}", k, e);
    }
  }
  for k in [k, n] {
  match Type::from_word_count(k) {
    Ok(t) => {
      check!(rb::COUNTS.contains(&k) && t.mnemonic_count() == k, "{} words accepted as {:?}", k, t);
      check!(format!("{}", t) == k.to_string() && k.to_string().parse::<Type>() == Ok(t), "type {:?} prints as {}", t, t);
    }
    Err(e) => {
      check!(!rb::COUNTS.contains(&k), "{} words refused", k);
      check!(e == bip39::Error::WrongNumberOfWords(k), "{} words refused with {:?}", k, e);
    }
  }
  }
  Ok(())
}

fn generate(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let k = s.idx(6);
  let n = rb::SIZES[k];
  let data = s.bytes_n(n);
  cx.nt();
  cx.note(|| format!("{} bytes from a source giving {}", n, hex(&data)));
  let given: RefCell<usize> = RefCell::new(0);
  let ent = Entropy::generate(types()[k], |b: &mut [u8]| {
    for x in b.iter_mut() {
      let mut g = given.borrow_mut();
      *x = data[*g % data.len()];
      *g += 1;
    }
  });
  check!(*given.borrow() == n, "the random source was asked for {} bytes for {} bits", given.borrow(), n * 8);
  check!(ent.as_ref() == &data[..], "generated entropy {} from source bytes {}", hex(ent.as_ref()), hex(&data));
  check!(ent.get_type() == types()[k], "generated type {:?}", ent.get_type());
  let back = Entropy::from_mnemonics(&ent.to_mnemonics()).map_err(|e| format!("generated phrase invalid: {}", e))?;
  check!(back == ent, "phrase of generated entropy decodes to {}", back);
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C01",
    subs: vec![
      Sub {
        name: "lossless",
        rule: "entropy of one of six sizes (random, sparse, constant) and one of eight languages against the reference encoder and decoder; every case is non-trivial",
        quick: 350_000,
        thorough: 60_000_000,
        enumerate: None,
        f: lossless
      },
      Sub {
        name: "sizes",
        rule: "every byte length 0..1199 as entropy and as a type's size or word count, plus random machine words",
        quick: 0,
        thorough: 0,
        enumerate: Some(1200),
        f: sizes
      },
      Sub {
        name: "generate",
        rule: "generated entropy from a recorded random source of chosen content",
        quick: 300_000,
        thorough: 5_000_000,
        enumerate: None,
        f: generate
      }
    ]
  }
}
