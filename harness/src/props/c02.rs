use super::c01::{Custom, SEPS};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use bip39::dictionary::{Error as DE, Language as _};
use bip39::{Entropy, Error, MnemonicIndex, MnemonicString, Mnemonics};

fn join(v: &[String]) -> String {
  v.join(" ")
}

/// the look-alikes of a word
fn twist(s: &mut Src, l: usize, w: &str) -> String {
  match s.below(14) {
    0 => w.to_uppercase(),
    1 => {
      let mut c = w.chars();
      c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
    }
    2 => w.chars().take(4).collect(),
    3 => {
      let n = w.chars().count();
      w.chars().take(n.saturating_sub(1)).collect()
    }
    4 => format!("{}{}", w, s.char()),
    5 => format!("{}{}", s.char(), w),
    6 => String::new(),
    7 => {
      let l2 = s.idx(8);
      rb::words(l2)[s.idx(2048)].to_string()
    }
    8 => format!("{}\u{0}", w),
    9 => w.replace('\u{301}', "").replace('\u{3099}', ""),
    10 => {
      let n = w.chars().count().max(1);
      let k = s.idx(n);
      let r = s.char();
      w.chars().enumerate().map(|(i, c)| if i == k { r } else { c }).collect()
    }
    11 => {
      let sp = *s.choose(&["\t", "\n", "\r", "\u{a0}", "\u{3000}", "\u{200b}", "\u{feff}", ",", " "]);
      if s.bool() {
        format!("{}{}", w, sp)
      } else {
        format!("{}{}", sp, w)
      }
    }
    12 => {
      let i = s.below(2048) as u64;
      i.to_string()
    }
    _ => {
      let a = rb::words(l)[s.idx(2048)];
      format!("{}{}", w, a)
    }
  }
}

/// is `e` a true statement about why `text` (split by `sep`) is not a phrase
fn judge(l: usize, sep: &str, text: &str, e: &Error) -> Result<(), String> {
  let toks: Vec<&str> = text.split(sep).collect();
  match e {
    Error::WrongNumberOfWords(n) => {
      check!((*n == toks.len() || (*n == 0 && text.is_empty())) && !rb::COUNTS.contains(n), "refused for {} words, the text has {}", n, toks.len())
    }
    Error::LanguageError(DE::MnemonicWordNotFoundInDictionary(w)) => {
      check!(toks.contains(&w.as_str()) && rb::index(l, w).is_none(), "refused for the word {:?}", w)
    }
    other => bail!("refused with {:?}", other)
  }
  Ok(())
}

fn text(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.idx(8);
  let custom = s.chance(1, 6);
  let sep = if custom { *s.choose(&SEPS) } else { " " };
  let raw = s.chance(1, 12);
  let t = if raw {
    s.text(200)
  } else {
    let n = if s.chance(1, 4) { s.range(0, 30) as usize } else { *s.choose(&rb::COUNTS) };
    let valid = s.chance(1, 2);
    let mut v: Vec<String> = if valid && rb::COUNTS.contains(&n) {
      let e = s.bytes_n(n / 3 * 4);
      rb::encode(&e).iter().map(|i| rb::words(l)[*i as usize].to_string()).collect()
    } else {
      (0..n).map(|_| rb::words(l)[s.idx(2048)].to_string()).collect()
    };
    let k = s.weighted(&[3, 5, 2, 1]);
    for _ in 0..k {
      if v.is_empty() {
        v.push(twist(s, l, ""));
        continue;
      }
      let i = s.idx(v.len());
      match s.below(8) {
        0..=3 => v[i] = twist(s, l, &v[i].clone()),
        4 => {
          v.remove(i);
        }
        5 => v.insert(i, rb::words(l)[s.idx(2048)].to_string()),
        6 => {
          let j = s.idx(v.len());
          v.swap(i, j);
        }
        _ => v[i] = rb::words(l)[s.idx(2048)].to_string()
      }
    }
    let mut t = join(&v);
    if custom {
      t = v.join(sep);
    }
    t
  };
  cx.note(|| format!("{} text {:?} separator {:?}", rb::NAMES[l], t, sep));
  // reference reading
  let toks: Vec<&str> = t.split(sep).collect();
  let idx: Option<Vec<u16>> = toks.iter().map(|w| rb::index(l, w)).collect();
  let good = idx.filter(|v| rb::COUNTS.contains(&v.len()));
  let d = Custom(dict(l), sep);
  let got = if custom { Mnemonics::from_string(&d, &t) } else { Mnemonics::from_string(dict(l), &t) };
  let got_s = if custom { MnemonicString::new(&d, t.clone()) } else { MnemonicString::new(dict(l), t.clone()) };
  match (&good, got) {
    (Some(v), Ok(m)) => {
      let n: Vec<u16> = m.as_ref().iter().map(|x| x.0).collect();
      check!(n == *v, "read as word numbers {:?} instead of {:?}", n, v);
      let e = Entropy::from_mnemonics(&m);
      match (rb::decode(v), e) {
        (Ok(a), Ok(b)) => {
          cx.label("valid");
          check!(b.as_ref() == &a[..], "decoded to {} instead of {}", hex(b.as_ref()), hex(&a))
        }
        (Err(rb::Bad::Checksum(a, b)), Err(e)) => {
          cx.nt();
          cx.label("checksum");
          check!(e == Error::InvalidChecksum(a, b), "checksum {:b} against {:b} reported as {:?}", b, a, e);
        }
        (Ok(_), Err(e)) => bail!("valid phrase refused: {}", e),
        (Err(b), Ok(e)) => bail!("decoded to {} although invalid: {:?}", e, b),
        (Err(b), Err(e)) => bail!("reported {:?} for {:?}", e, b)
      }
    }
    (None, Err(e)) => {
      cx.nt();
      cx.label("words");
      judge(l, sep, &t, &e)?;
    }
    (Some(_), Err(e)) => bail!("text of {} known words refused: {}", toks.len(), e),
    (None, Ok(m)) => bail!("accepted as {:?}", m)
  }
  match (&good, got_s) {
    (Some(_), Ok(m)) => check!(&*m == t, "kept as {:?}", &*m),
    (None, Err(e)) => judge(l, sep, &t, &e)?,
    (Some(_), Err(e)) => bail!("checked phrase refused: {}", e),
    (None, Ok(_)) => bail!("accepted as a checked phrase")
  }
  Ok(())
}

/// every checksum but one is refused
fn checksum(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let e = gen_entropy(s);
  let cs = e.len() / 4;
  cx.nt();
  cx.note(|| format!("all checksums of {}", hex(&e)));
  let idx = rb::encode(&e);
  let right = rb::checksum(&e);
  for c in 0..(1u16 << cs) {
    let mut v = idx.clone();
    let k = v.len() - 1;
    v[k] = v[k] >> cs << cs | c;
    let m = Mnemonics::from_mnemonics(v.iter().map(|i| MnemonicIndex(*i)).collect()).map_err(|e| format!("{}", e))?;
    match Entropy::from_mnemonics(&m) {
      Ok(x) => {
        check!(c as u8 == right, "checksum {:b} accepted, right is {:b}", c, right);
        check!(x.as_ref() == &e[..], "decoded to {}", x);
      }
      Err(x) => {
        check!(c as u8 != right, "right checksum refused: {}", x);
        check!(x == Error::InvalidChecksum(right, c as u8), "checksum {:b} for {:b} reported as {:?}", c, right, x);
      }
    }
  }
  // any other single word in any place
  let i = s.idx(idx.len());
  let mut v = idx.clone();
  v[i] = s.below(2048) as u16;
  let m = Mnemonics::from_mnemonics(v.iter().map(|i| MnemonicIndex(*i)).collect()).map_err(|e| format!("{}", e))?;
  match (rb::decode(&v), Entropy::from_mnemonics(&m)) {
    (Ok(a), Ok(b)) => check!(b.as_ref() == &a[..], "decoded to {}", b),
    (Err(rb::Bad::Checksum(a, b)), Err(e)) => check!(e == Error::InvalidChecksum(a, b), "reported as {:?}", e),
    (a, b) => bail!("reference {:?}, library {:?}", a, b)
  }
  Ok(())
}

/// numbers outside the list, all 65536 of them, and phrases of every count
fn numbers(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let m = s.below(65536) as u16;
  cx.nt();
  cx.note(|| format!("word number {}", m));
  match MnemonicIndex::new(m) {
    Ok(i) => check!(m < 2048 && i.0 == m, "word number {} accepted as {:?}", m, i),
    Err(e) => {
      check!(m >= 2048, "word number {} refused", m);
      check!(e == Error::MnemonicOutOfBound(m), "word number {} refused with {:?}", m, e);
    }
  }
  for l in 0..8 {
    match dict(l).lookup_word(MnemonicIndex(m)) {
      Ok(w) => {
        check!(m < 2048, "word number {} looked up as {:?}", m, w);
        check!(w == rb::words(l)[m as usize], "word number {} is {:?}", m, w);
      }
      Err(e) => check!(m >= 2048, "word number {} not found: {}", m, e)
    }
  }
  if m < 400 {
    let n = m as usize;
    let v: Vec<MnemonicIndex> = (0..n).map(|_| MnemonicIndex(s.below(2048) as u16)).collect();
    match Mnemonics::from_mnemonics(v) {
      Ok(_) => check!(rb::COUNTS.contains(&n), "phrase of {} words accepted", n),
      Err(e) => {
        check!(!rb::COUNTS.contains(&n), "phrase of {} words refused", n);
        check!(e == Error::WrongNumberOfWords(n), "{} words refused with {:?}", n, e);
      }
    }
    for l in 0..8 {
      let t = vec![rb::words(l)[s.idx(2048)]; n].join(" ");
      let r = Mnemonics::from_string(dict(l), &t);
      match r {
        Ok(_) => check!(rb::COUNTS.contains(&n), "text of {} words accepted", n),
        Err(Error::WrongNumberOfWords(k)) => check!((k == n || (n == 0 && k == 1)) && !rb::COUNTS.contains(&n), "{} words reported as {}", n, k),
        Err(Error::LanguageError(_)) if n == 0 => {}
        Err(e) => bail!("text of {} words refused with {:?}", n, e)
      }
    }
  }
  Ok(())
}

/// the same through a wallet: the message has to name the word or the count
fn wallet(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.idx(8);
  let mask = 1 + s.below(7) as u32;
  let n = mask_words(mask);
  let e = s.bytes_n(n / 3 * 4);
  let mut v: Vec<String> = rb::encode(&e).iter().map(|i| rb::words(l)[*i as usize].to_string()).collect();
  let i = s.idx(v.len());
  match s.below(3) {
    0 | 1 => v[i] = twist(s, l, &v[i].clone()),
    _ => {
      let k = s.below(30) as usize;
      v.resize(k, rb::words(l)[s.idx(2048)].to_string());
    }
  }
  let t = join(&v);
  if rb::parse(l, &t).is_ok() {
    return Ok(());
  }
  cx.nt();
  cx.note(|| format!("wallet from {} text {:?}", rb::NAMES[l], t));
  let m = manager(mask)?;
  match m.keychain_data_from_mnemonic(&t, "pw", Some(LANGS[l])) {
    Ok(_) => bail!("a wallet was made from it"),
    Err(x) => {
      check!(err_kind(&x) == "MnemonicError", "refused as {}", err_kind(&x));
      let msg = format!("{}", x);
      let toks: Vec<&str> = t.split(' ').collect();
      let named = toks.iter().any(|w| rb::index(l, w).is_none() && msg.contains(&format!("'{}'", w)));
      let counted = !rb::COUNTS.contains(&toks.len()) && has_number(&msg, toks.len() as u64);
      check!(named || counted, "the message names neither the word nor the count: {:?}", msg);
    }
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C02",
    subs: vec![
      Sub {
        name: "text",
        rule: "phrases damaged word by word (case, length, foreign languages, white space, normal forms, missing and extra words, other separators) and arbitrary text; non-trivial: the reference refuses it",
        quick: 500_000,
        thorough: 40_000_000,
        enumerate: None,
        f: text
      },
      Sub {
        name: "checksum",
        rule: "all checksum values of a random entropy and one replaced word",
        quick: 60_000,
        thorough: 2_000_000,
        enumerate: None,
        f: checksum
      },
      Sub {
        name: "numbers",
        rule: "every 16-bit word number in every language; every word count below 400",
        quick: 0,
        thorough: 0,
        enumerate: Some(65536),
        f: numbers
      },
      Sub {
        name: "wallet",
        rule: "damaged phrases given to a wallet manager; non-trivial: the reference refuses the text",
        quick: 100_000,
        thorough: 3_000_000,
        enumerate: None,
        f: wallet
      }
    ]
  }
}
