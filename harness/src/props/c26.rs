//! What equality, order, copies and printed forms of the library's values say about what they hold.
use super::c01::{variant, Custom, SEPS};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use bip39::{dictionary, util::hex as lhex, Entropy, MnemonicIndex, MnemonicString, Mnemonics, Seed, Type};
use keychain::{Language, Network, SeedSize};
use num_traits::{FromPrimitive, ToPrimitive};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::error::Error as _;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

/// bytes of the same length that sloppy comparisons take for equal, or the same ones
fn near(s: &mut Src, a: &[u8]) -> Vec<u8> {
  let mut b = a.to_vec();
  let n = b.len();
  let (i, j) = (s.idx(n), s.idx(n));
  let k = 1 + s.below(255) as u8;
  match s.below(16) {
    0 | 1 => {}
    2 | 3 => b[i] ^= 1 << s.below(8),
    4 => b[i] = s.u8(),
    5 => b.swap(i, j),
    6 if i != j => {
      // the same exclusive or
      b[i] ^= k;
      b[j] ^= k;
    }
    7 if i != j => {
      // the same sum
      b[i] = b[i].wrapping_add(k);
      b[j] = b[j].wrapping_sub(k);
    }
    8 => b.reverse(),
    9 => b.rotate_left(i),
    10 => b[n - 1] ^= k,
    11 => b[0] ^= k,
    12 => {
      // the same first part
      for x in b[i..].iter_mut() {
        *x = s.u8();
      }
    }
    13 => {
      for x in b[..i].iter_mut() {
        *x = s.u8();
      }
    }
    14 => {
      // the same multiple of four or eight bytes
      let w = *s.choose(&[4usize, 8]);
      let at = i / w * w;
      for x in b[at..(at + w).min(n)].iter_mut() {
        *x ^= k;
      }
    }
    _ => b = s.bytes_n(n)
  }
  b
}

/// ==, != agree with equality of content, both ways, and each value is equal to itself
fn equal<T: PartialEq>(what: &str, a: &T, b: &T, same: bool) -> Result<(), String> {
  check!(a == a && !(a != a) && b == b, "{}: a value is not equal to itself", what);
  check!((a == b) == same && (b == a) == same, "{}: == is {} for {} content", what, a == b, if same { "the same" } else { "different" });
  check!((a != b) != same && (b != a) != same, "{}: != is {} for {} content", what, a != b, if same { "the same" } else { "different" });
  Ok(())
}
/// every way of asking for the order gives this one
fn order<T: Ord>(what: &str, a: &T, b: &T, want: Ordering) -> Result<(), String> {
  equal(what, a, b, want == Ordering::Equal)?;
  check!(a.cmp(b) == want && b.cmp(a) == want.reverse(), "{}: order {:?} instead of {:?}", what, a.cmp(b), want);
  check!(a.partial_cmp(b) == Some(want) && b.partial_cmp(a) == Some(want.reverse()), "{}: partial order {:?} instead of {:?}", what, a.partial_cmp(b), want);
  check!((a < b) == (want == Ordering::Less) && (a > b) == (want == Ordering::Greater), "{}: < or > disagrees with {:?}", what, want);
  check!((a <= b) == (want != Ordering::Greater) && (a >= b) == (want != Ordering::Less), "{}: <= or >= disagrees with {:?}", what, want);
  Ok(())
}
fn print<T: Display + Debug>(what: &str, a: &T, want: &str) -> Result<(), String> {
  check!(format!("{}", a) == want, "{} prints as {}", what, a);
  check!(a.to_string() == want, "{} as text is {}", what, a.to_string());
  Ok(())
}
fn digest<T: Hash>(a: &T) -> u64 {
  let mut h = std::collections::hash_map::DefaultHasher::new();
  a.hash(&mut h);
  h.finish()
}

/// the same entropy made in one of several ways
fn make_entropy(s: &mut Src, e: &[u8]) -> Result<Entropy, String> {
  let l = s.idx(8);
  Ok(match s.below(5) {
    0 => variant(e),
    1 => Entropy::from_slice(e).map_err(|x| format!("refused: {}", x))?,
    2 => variant(e).clone(),
    3 => Entropy::generate(variant(e).get_type(), |b| b.copy_from_slice(e)),
    _ => {
      let m = Mnemonics::from_string(dict(l), &rb::phrase(l, &rb::encode(e))).map_err(|x| format!("refused: {}", x))?;
      Entropy::from_mnemonics(&m).map_err(|x| format!("refused: {}", x))?
    }
  })
}

fn entropies(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let a = gen_entropy(s);
  let mut b = near(s, &a);
  if s.chance(1, 4) {
    // another size with the same beginning
    let n = *s.choose(&rb::SIZES);
    let fill = *s.choose(&[0u8, 255, 7]);
    b.resize(n, fill);
    cx.label("another size");
  }
  cx.nt();
  cx.note(|| format!("{} and {}", hex(&a), hex(&b)));
  let (x, y) = (make_entropy(s, &a)?, make_entropy(s, &b)?);
  let want = a.len().cmp(&b.len()).then_with(|| a.cmp(&b));
  cx.label(if want == Ordering::Equal { "equal" } else { "different" });
  order("entropy", &x, &y, want)?;
  let c = x.clone();
  order("copied entropy", &c, &y, want)?;
  equal("a copy and its original", &c, &x, true)?;
  drop(x);
  order("entropy whose original is gone", &c, &y, want)?;
  print("entropy", &c, &hex(&a))?;
  check!(format!("{:?}", y) == hex(&b), "entropy prints as {:?}", y);
  check!(c.as_ref() == &a[..] && &*c == &a[..] && y.len() == b.len(), "the entropy's bytes are {}", hex(c.as_ref()));
  // phrases and word numbers of theirs
  let (m, n) = (c.to_mnemonics(), y.to_mnemonics());
  equal("word numbers", &m, &n, want == Ordering::Equal)?;
  equal("copied word numbers", &m.clone(), &n, want == Ordering::Equal)?;
  let l = s.idx(8);
  let k = if s.chance(1, 4) { s.idx(8) } else { l };
  let (p, q) = (m.to_string(dict(l)), n.to_string(dict(k)));
  let (t, u) = (rb::phrase(l, &rb::encode(&a)), rb::phrase(k, &rb::encode(&b)));
  order("phrases", &p, &q, t.as_bytes().cmp(u.as_bytes()))?;
  let (p, q) = (p.clone(), MnemonicString::new(dict(k), u.clone()).map_err(|e| format!("refused: {}", e))?);
  order("phrases", &p, &q, t.as_bytes().cmp(u.as_bytes()))?;
  print("phrase", &p, &t)?;
  check!(&*q == u && q.len() == u.len(), "the phrase's text is {:?}", &*q);
  // the same words, another separator: another text
  let sep = *s.choose(&SEPS);
  let r = m.to_string(&Custom(dict(l), sep));
  let v = rb::encode(&a).iter().map(|i| rb::words(l)[*i as usize]).collect::<Vec<_>>().join(sep);
  order("phrases", &p, &r, t.as_bytes().cmp(v.as_bytes()))?;
  Ok(())
}

fn seeds(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let a = gen_seed(s);
  let b = near(s, &a);
  cx.nt();
  cx.label(if a == b { "equal" } else { "different" });
  cx.note(|| format!("{} and {}", hex(&a), hex(&b)));
  let make = |s: &mut Src, v: &[u8]| -> Result<Seed, String> {
    if s.bool() {
      let mut k = [0u8; 64];
      k.copy_from_slice(v);
      Ok(Seed::from_bytes(k))
    } else {
      Seed::from_slice(v).map_err(|e| format!("refused: {}", e))
    }
  };
  let (x, y) = (make(s, &a)?, make(s, &b)?);
  equal("seeds", &x, &y, a == b)?;
  print("seed", &x, &hex(&a))?;
  check!(format!("{:?}", y) == hex(&b), "seed prints as {:?}", y);
  check!(x.as_ref() == &a[..] && &y[..] == &b[..], "the seed's bytes are {}", hex(x.as_ref()));
  Ok(())
}

/// a seed derived from a phrase beside one from bytes
fn derived(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let words = *s.choose(&rb::COUNTS);
  let (l, _, t) = gen_phrase(s, words);
  let pass = s.bytes(20);
  cx.nt();
  cx.note(|| format!("{:?} and {}", t, hex(&pass)));
  let p = MnemonicString::new(dict(l), t.clone()).map_err(|e| format!("refused: {}", e))?;
  let z = Seed::from_mnemonic_string(&p, &pass);
  let w = rb::seed(&t, &pass);
  print("seed", &z, &hex(&w))?;
  for _ in 0..8 {
    let v = near(s, &w);
    let y = Seed::from_slice(&v).map_err(|e| format!("refused: {}", e))?;
    equal("a derived seed and one from bytes", &z, &y, w[..] == v[..])?;
  }
  let again = Seed::from_mnemonic_string(&p.clone(), &pass);
  equal("a seed derived twice", &z, &again, true)
}

/// types, their names and sizes
fn type_text(s: &mut Src) -> String {
  let n = *s.choose(&[9u64, 12, 15, 18, 21, 24, 0, 3, 6, 27, 96, 128, 256]);
  match s.below(12) {
    0..=3 => n.to_string(),
    4 => format!("0{}", n),
    5 => format!("+{}", n),
    6 => format!(" {}", n),
    7 => format!("{}{}", n, s.choose(&[" ", "\n", "\0", "words", ".0", "Words", "L"])),
    8 => n.to_string().chars().map(|c| char::from_u32(c as u32 - 0x30 + 0xff10).unwrap()).collect(),
    9 => format!("Type{}Words", n),
    10 => s.below(300).to_string(),
    _ => s.text(8)
  }
}
fn kinds(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let all = types();
  let (i, j) = (s.idx(6), s.idx(6));
  cx.nt();
  order("phrase types", &all[i], &all[j], i.cmp(&j))?;
  order("copied phrase types", &all[i].clone(), &all[j], i.cmp(&j))?;
  let (words, bits) = (rb::COUNTS[i], rb::SIZES[i] * 8);
  print("type", &all[i], &words.to_string())?;
  check!(all[i].mnemonic_count() == words && all[i].to_key_size() == bits && all[i].checksum_size_bits() == bits / 32, "sizes of {:?}", all[i]);
  check!(Type::from_word_count(words) == Ok(all[i]) && Type::from_entropy_size(bits) == Ok(all[i]), "{:?} by its sizes", all[i]);
  check!(Type::default() == Type::Type18Words, "the default type is {:?}", Type::default());
  let t = type_text(s);
  cx.note(|| format!("{:?} and {:?}, text {:?}", all[i], all[j], t));
  let want = rb::COUNTS.iter().position(|c| c.to_string() == t).map(|k| all[k]);
  let got = t.parse::<Type>();
  check!(got.clone().ok() == want, "{:?} is read as type {:?}", t, got);
  cx.label(if want.is_some() { "a type's text" } else { "other text" });
  // languages
  let (i, j) = (s.idx(8), s.idx(8));
  equal("languages", &LANGS[i], &LANGS[j], i == j)?;
  equal("copied languages", &LANGS[i].clone(), &LANGS[j], i == j)?;
  check!(i != j || digest(&LANGS[i]) == digest(&LANGS[j]), "equal languages hash differently");
  check!(Language::default() == Language::English, "the default language is {:?}", Language::default());
  check!(format!("{:?}", LANGS[i]) == LANG_STORED[i], "language {:?} for {}", LANGS[i], LANG_STORED[i]);
  check!(LANGS[i] as usize == i && LANGS[i].to_u64() == Some(i as u64) && LANGS[i].to_i64() == Some(i as i64), "number of {:?}", LANGS[i]);
  let n = match s.below(3) {
    0 => s.below(8),
    1 => s.below(300),
    // numbers that only look right when cut; the derived conversion itself cuts to 32 bits
    _ => s.below(8) + (1u64 << *s.choose(&[8u32, 16, 24, 30]))
  };
  let want = if n < 8 { Some(LANGS[n as usize]) } else { None };
  check!(Language::from_u64(n) == want && Language::from_u32(n as u32) == want, "number {} is language {:?}", n, Language::from_u64(n));
  let neg = -(s.below(1 << 31) as i64) - 1;
  check!(Language::from_i64(neg).is_none(), "number {} is language {:?}", neg, Language::from_i64(neg));
  let d = LANGS[i].to_dict();
  let w = s.below(2048) as u16;
  check!(dictionary::Language::name(d) == rb::NAMES[i], "{:?} has the list {}", LANGS[i], dictionary::Language::name(d));
  let got = dictionary::Language::lookup_word(d, MnemonicIndex(w));
  check!(got.as_ref().ok().map(|x| x.as_str()) == Some(rb::words(i)[w as usize]), "word {} of {:?} is {:?}", w, LANGS[i], got);
  // networks
  let a = s.u32_any();
  let b = if s.chance(1, 3) { a } else { a ^ (1 << s.below(32)) };
  equal("networks", &Network(a), &Network(b), a == b)?;
  check!(a != b || digest(&Network(a)) == digest(&Network(b)), "equal networks hash differently");
  let set: HashSet<Network> = [a, b, a].iter().map(|x| Network(*x)).collect();
  check!(set.len() == if a == b { 1 } else { 2 } && set.contains(&Network(a)) && set.contains(&Network(b)), "a set of {} and {} has {}", a, b, set.len());
  print("network", &Network(a), &format!("Network({})", a))?;
  check!([Network::BITCOIN, Network::ETHEREUM, Network::CARDANO].iter().map(|n| n.0).eq(COINS.iter().cloned()), "the networks' numbers");
  // seed sizes
  let (lo, hi) = (s.below(20) as usize * 32, s.below(40) as usize * 32);
  let z = SeedSize { min: lo, max: hi };
  check!(z.min_words() == lo / 32 * 3 && z.max_words() == hi / 32 * 3, "{:?}: {} to {} words", z, z.min_words(), z.max_words());
  Ok(())
}

/// errors
fn errors(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  use bip39::Error as E;
  fn one(s: &mut Src, k: u64, n: [u64; 2], t: &str) -> (E, String) {
    let _ = s;
    let (a, b) = (n[0], n[1]);
    match k {
      0 => (E::WrongNumberOfWords(a as usize), format!("words {}", a)),
      1 => (E::WrongKeySize(a as usize), format!("key {}", a)),
      2 => (E::MnemonicOutOfBound(a as u16), format!("index {}", a as u16)),
      3 => (E::InvalidChecksum(a as u8, b as u8), format!("checksum {} {}", a as u8, b as u8)),
      4 => (E::InvalidSeedSize(a as usize), format!("seed {}", a)),
      _ => (E::from(dictionary::Error::MnemonicWordNotFoundInDictionary(t.to_string())), format!("word {}", t))
    }
  }
  let k = s.below(6);
  let n = [s.below(70_000), s.below(256)];
  let t = if s.bool() { rb::words(s.idx(8))[s.idx(2048)].to_string() } else { s.text(12) };
  let (mut k2, mut n2, mut t2) = (k, n, t.clone());
  match s.below(5) {
    0 => k2 = s.below(6),
    1 => n2 = [n[0] ^ 1 << s.below(17), n[1]],
    2 => n2 = [n[0], n[1] ^ 1 << s.below(8)],
    3 => t2 = respell(s, &t),
    _ => {}
  }
  let (a, x) = one(s, k, n, &t);
  let (b, y) = one(s, k2, n2, &t2);
  cx.nt();
  cx.note(|| format!("{:?} and {:?}", a, b));
  equal("errors", &a, &b, x == y)?;
  check!(x == y || format!("{:?}", a) != format!("{:?}", b), "different errors show as {:?}", a);
  let said = format!("{}", a);
  match k {
    5 => {
      #[allow(deprecated)]
      let under = a.source().or(a.cause()).map(|e| e.to_string()).unwrap_or_default();
      check!(said.contains(&t) || under.contains(&t), "the error for the unknown word {:?} says {:?} because of {:?}", t, said, under);
    }
    3 => {}
    _ => check!(has_number(&said, if k == 2 { n[0] as u16 as u64 } else { n[0] }), "{:?} says {:?}", a, said)
  }
  let (d, e) = (dictionary::Error::MnemonicWordNotFoundInDictionary(t.clone()), dictionary::Error::MnemonicWordNotFoundInDictionary(t2.clone()));
  order("unknown words", &d, &e, t.as_bytes().cmp(t2.as_bytes()))?;
  order("copied unknown words", &d.clone(), &e.clone(), t.as_bytes().cmp(t2.as_bytes()))?;
  check!(format!("{}", d).contains(&t), "the error for the unknown word {:?} says {:?}", t, format!("{}", d));
  // what decoding hex says
  let (p, q) = (s.idx(40), s.idx(40));
  let bad = |n: usize| lhex::decode(&format!("{}g", "0".repeat(n))).unwrap_err();
  let order_of = bad(p);
  order("hex errors", &order_of, &bad(q), p.cmp(&q))?;
  check!(has_number(&format!("{}", order_of), p as u64), "a wrong character at {} is {:?}", p, format!("{}", order_of));
  Ok(())
}

/// word numbers
fn indices(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.below(65_536) as u16;
  let k = if s.bool() { n ^ 1 << s.below(16) } else { s.below(4096) as u16 };
  cx.nt();
  cx.note(|| format!("{} and {}", n, k));
  match MnemonicIndex::new(n) {
    Ok(i) => check!(n < 2048 && i.0 == n, "{} is taken for word {}", n, i.0),
    Err(e) => check!(n >= 2048 && e == bip39::Error::MnemonicOutOfBound(n), "{}: {:?}", n, e)
  }
  let (a, b) = (MnemonicIndex(n), MnemonicIndex(k));
  order("word numbers", &a, &b, n.cmp(&k))?;
  order("copied word numbers", &{ a }, &b.clone(), n.cmp(&k))?;
  Ok(())
}

/// many at once
fn many(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let first = gen_entropy(s);
  let mut raw = vec![first];
  for _ in 0..s.range(2, 12) {
    let i = s.idx(raw.len());
    let mut b = near(s, &raw[i].clone());
    if s.chance(1, 5) {
      b.resize(*s.choose(&rb::SIZES), 0);
    }
    raw.push(b);
  }
  cx.nt();
  cx.note(|| raw.iter().map(|b| hex(b)).collect::<Vec<_>>().join(" "));
  let mut v = Vec::new();
  for b in raw.iter() {
    v.push(make_entropy(s, b)?);
  }
  let mut set = BTreeSet::new();
  for e in v.iter() {
    set.insert(e.clone());
  }
  let l = s.idx(8);
  let texts: BTreeSet<MnemonicString> = v.iter().map(|e| e.to_mnemonics().to_string(dict(l))).collect();
  v.sort();
  let mut want = raw.clone();
  want.sort_by(|a, b| a.len().cmp(&b.len()).then_with(|| a.cmp(b)));
  check!(v.iter().map(|e| e.as_ref().to_vec()).eq(want.iter().cloned()), "sorted: {:?}", v);
  want.dedup();
  check!(set.iter().map(|e| e.as_ref().to_vec()).eq(want.iter().cloned()), "a set of them: {:?}", set);
  let mut phrases: Vec<String> = want.iter().map(|e| rb::phrase(l, &rb::encode(e))).collect();
  phrases.sort();
  check!(texts.iter().map(|t| t.to_string()).eq(phrases), "a set of their phrases: {:?}", texts);
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C26",
    subs: vec![
      Sub {
        name: "entropies",
        rule: "two entropies, each made in one of five ways, equal or different in a bit, a byte, an order, a part or the size, in ways that cancel in sums and exclusive ors; their word numbers and phrases in one or two languages, also with a custom separator",
        quick: 200_000,
        thorough: 40_000_000,
        enumerate: None,
        f: entropies
      },
      Sub {
        name: "seeds",
        rule: "two seeds that differ likewise, made from an array or a slice",
        quick: 300_000,
        thorough: 40_000_000,
        enumerate: None,
        f: seeds
      },
      Sub {
        name: "derived",
        rule: "a seed derived from a phrase in any language and size, beside eight from bytes near it",
        quick: 500,
        thorough: 100_000,
        enumerate: None,
        f: derived
      },
      Sub {
        name: "kinds",
        rule: "pairs of types, languages and networks; texts and numbers near those of a type or language",
        quick: 400_000,
        thorough: 40_000_000,
        enumerate: None,
        f: kinds
      },
      Sub {
        name: "errors",
        rule: "pairs of errors of the same or another kind that differ in one number or letter, or not",
        quick: 200_000,
        thorough: 20_000_000,
        enumerate: None,
        f: errors
      },
      Sub {
        name: "indices",
        rule: "every 16-bit number as a word number, beside another",
        quick: 0,
        thorough: 0,
        enumerate: Some(65_536),
        f: indices
      },
      Sub {
        name: "many",
        rule: "3..13 entropies near each other, sorted and in sets, also as phrases",
        quick: 60_000,
        thorough: 6_000_000,
        enumerate: None,
        f: many
      }
    ]
  }
}
