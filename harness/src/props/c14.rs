//! Generated phrases: form, origin and distribution.
use super::c01::variant;
use super::c12::Cfg;
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use std::cell::RefCell;

/// a manager for a phrase size: built-in networks, or custom ones for the other sizes
fn gen_cfg(s: &mut Src) -> Cfg {
  if s.bool() {
    return Cfg { mask: s.range(1, 7) as u32, plugs: vec![] };
  }
  let bits = 96 + 32 * s.below(6) as usize;
  let mask = if bits >= 128 { s.below(8) as u32 } else { s.below(2) as u32 * 4 };
  Cfg { mask, plugs: vec![(7, bits)] }
}

fn decode(l: usize, text: &str, words: usize) -> Result<Vec<u8>, String> {
  let idx = match rb::parse(l, text) {
    Ok(i) => i,
    Err(_) => bail!("not a phrase in {}: {:?}", rb::NAMES[l], text)
  };
  check!(idx.len() == words, "{} words instead of {}: {:?}", idx.len(), words, text);
  match rb::decode(&idx) {
    Ok(e) => Ok(e),
    Err(_) => Err(format!("wrong checksum: {:?}", text))
  }
}

fn each(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let cfg = gen_cfg(s);
  let m = cfg.make(s)?;
  cx.nt();
  for _ in 0..s.range(1, 6) {
    let l = s.idx(9);
    let (l, arg) = if l == 8 { (0, None) } else { (l, Some(LANGS[l])) };
    crate::osrand::clear();
    let t = guard("generating", || m.generate_mnemonic(arg))?.map_err(|e| format!("generating in {:?}: {}", arg, e))?;
    cx.note(|| format!("{:?} in {:?}: {:?}", cfg, arg, t));
    let e = decode(l, &t, cfg.words())?;
    let drawn = crate::osrand::log();
    check!(drawn.len() >= e.len(), "{} bytes drawn from the system for {} bytes of entropy", drawn.len(), e.len());
    cx.label(if arg.is_none() { "default language" } else { rb::NAMES[l] });
    if s.chance(1, 40) {
      cx.label("wallet made");
      let r = guard("making a wallet", || m.keychain_data_from_mnemonic(&t, "p", arg))?;
      let blob = r.map_err(|e| format!("the manager refuses its own phrase {:?}: {}", t, e))?;
      let p = read_blob(&blob, "p")?;
      check!(p.mnemonic.as_deref() == Some(&t) && p.lang == Some(l), "the wallet keeps {:?} {:?}", p.mnemonic, p.lang);
    }
  }
  Ok(())
}

/// rank over GF(2) of rows of up to 320 bits
fn rank(mut rows: Vec<[u64; 5]>, bits: usize) -> usize {
  let mut r = 0;
  for b in 0..bits {
    let (w, k) = (b / 64, b % 64);
    if let Some(p) = (r..rows.len()).find(|i| rows[*i][w] >> k & 1 == 1) {
      rows.swap(r, p);
      let piv = rows[r];
      for (i, row) in rows.iter_mut().enumerate() {
        if i != r && row[w] >> k & 1 == 1 {
          for j in 0..5 {
            row[j] ^= piv[j];
          }
        }
      }
      r += 1;
    }
  }
  r
}

fn bit(e: &[u8], i: usize) -> u64 {
  (e[i / 8] >> (7 - i % 8) & 1) as u64
}

/// the distribution over many phrases of one manager, or of many managers
fn spread(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let cfg = gen_cfg(s);
  let l = s.idx(8);
  let fresh = s.bool();
  let langs = s.bool();
  let n = 640usize;
  let bytes = cfg.bits() / 8;
  cx.nt();
  cx.label(match bytes {
    12 => "96 bits",
    16 => "128 bits",
    20 => "160 bits",
    24 => "192 bits",
    28 => "224 bits",
    _ => "256 bits"
  });
  cx.note(|| format!("{} phrases of {:?} in {}{}", n, cfg, rb::NAMES[l], if fresh { ", a new manager for each" } else { "" }));
  let mut m = cfg.make(s)?;
  let mut all: Vec<Vec<u8>> = Vec::with_capacity(n);
  crate::osrand::clear();
  for i in 0..n {
    if fresh && i > 0 {
      m = if cfg.plugs.is_empty() { manager(cfg.mask)? } else { cfg.make(s)? };
    }
    let l = if langs { (l + i) % 8 } else { l };
    let t = m.generate_mnemonic(Some(LANGS[l])).map_err(|e| format!("generating: {}", e))?;
    all.push(decode(l, &t, cfg.words())?);
  }
  let drawn = crate::osrand::log().len();
  check!(drawn >= n * bytes, "{} phrases of {} bytes come from {} bytes of the system's randomness", n, bytes, drawn);
  let mut sorted = all.clone();
  sorted.sort();
  for w in sorted.windows(2) {
    check!(w[0] != w[1], "entropy {} comes twice in {} phrases", hex(&w[0]), n);
  }
  // 7.5 standard deviations: about 6e-14 per bit
  let lim = (7.5 * (n as f64).sqrt() / 2.0) as i64;
  for i in 0..bytes * 8 {
    let ones: u64 = all.iter().map(|e| bit(e, i)).sum();
    check!(ones > 0 && ones < n as u64, "bit {} of the entropy is always {}", i, ones / n as u64);
    check!((ones as i64 - n as i64 / 2).abs() <= lim, "bit {} is set in {} of {} phrases", i, ones, n);
    let same = all.windows(2).filter(|w| bit(&w[0], i) == bit(&w[1], i)).count() as i64;
    check!((same - (n as i64 - 1) / 2).abs() <= lim, "bit {} repeats from one phrase to the next {} times of {}", i, same, n - 1);
  }
  let rows: Vec<[u64; 5]> = all
    .iter()
    .map(|e| {
      let mut r = [0u64; 5];
      for i in 0..bytes * 8 {
        r[i / 64] |= bit(e, i) << (i % 64);
      }
      r[4] |= 1 << 63;
      r
    })
    .collect();
  // the constant column stands for parity relations
  let mut cols = rows.clone();
  for r in cols.iter_mut() {
    let c = r[4] >> 63;
    r[4] = 0;
    r[bytes * 8 / 64] |= c << (bytes * 8 % 64);
  }
  let k = rank(cols, bytes * 8 + 1);
  check!(k == bytes * 8 + 1, "the {} bits of {} phrases obey {} linear relations", bytes * 8, n, bytes * 8 + 1 - k);
  // bytes within one phrase
  for d in 1..bytes {
    let eq: usize = all.iter().map(|e| (0..bytes - d).filter(|i| e[*i] == e[i + d]).count()).sum();
    let cells = (n * (bytes - d)) as f64;
    let lim = cells / 256.0 + 8.0 * (cells / 256.0).sqrt() + 12.0;
    check!((eq as f64) <= lim, "bytes {} apart agree {} times in {} places", d, eq, cells);
  }
  Ok(())
}

/// probability that a run of equal bits of length k or more is in n fair bits
fn p_run(n: usize, k: usize) -> f64 {
  // no run of k yet, by the length of the current run
  let mut cur = vec![0.0f64; k];
  cur[1] = 1.0;
  for _ in 1..n {
    let mut next = vec![0.0f64; k];
    for (r, q) in cur.iter().enumerate() {
      next[1] += q / 2.0;
      if r + 1 < k {
        next[r + 1] += q / 2.0;
      }
    }
    cur = next;
  }
  1.0 - cur.iter().sum::<f64>()
}

/// probability that n fair bits have at most k ones
fn p_ones(n: usize, k: usize) -> f64 {
  let mut row = vec![0.0f64; n + 1];
  row[0] = 1.0;
  for i in 0..n {
    for j in (0..=i).rev() {
      row[j + 1] += row[j] / 2.0;
      row[j] /= 2.0;
    }
  }
  row[..=k].iter().sum()
}

/// probabilities of the length in bytes of phrases of this language
fn lengths(l: usize, words: usize) -> Vec<f64> {
  let mut one = vec![0.0f64; 80];
  for w in rb::words(l).iter() {
    one[w.len()] += 1.0 / 2048.0;
  }
  let mut all = vec![1.0f64];
  for k in 0..words {
    let mut next = vec![0.0f64; all.len() + 80];
    for (i, p) in all.iter().enumerate() {
      for (j, q) in one.iter().enumerate() {
        if *q > 0.0 {
          next[i + j + if k > 0 { 1 } else { 0 }] += p * q;
        }
      }
    }
    all = next;
  }
  all
}

/// an event of probability p seen k times of n is less likely than e^-45
fn surprising(n: usize, k: usize, p: f64) -> bool {
  let x = k as f64 / n as f64;
  let a = if k == 0 { 0.0 } else { x * (x / p).ln() };
  let b = if k == n { 0.0 } else { (1.0 - x) * ((1.0 - x) / (1.0 - p)).ln() };
  n as f64 * (a + b) > 45.0
}

/// phrases that look odd come as often as chance has them: nothing is filtered out or preferred
fn rare(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let cfg = gen_cfg(s);
  let l = s.idx(8);
  // enough for every word at every place now and then
  let n = if s.chance(1, 24) { 200_000usize } else { 20_000 };
  let (bits, words) = (cfg.bits(), cfg.words());
  let bytes = bits / 8;
  cx.nt();
  cx.label(rb::NAMES[l]);
  cx.note(|| format!("{} phrases of {:?} in {}", n, cfg, rb::NAMES[l]));
  let m = cfg.make(s)?;
  let lens = lengths(l, words);
  let up_to = |k: usize| lens[..=k].iter().sum::<f64>();
  let from = |k: usize| lens[k..].iter().sum::<f64>();
  let short = (0..lens.len()).find(|k| up_to(*k) > 0.006).unwrap();
  let long = (0..lens.len()).rev().find(|k| from(*k) > 0.006).unwrap();
  let (p_short, p_long) = (up_to(short), from(long));
  let few = (0..bits).find(|k| p_ones(bits, *k) > 0.006).unwrap();
  let p_few = p_ones(bits, few);
  let run = (5..40).rev().find(|k| p_run(bits, *k) > 0.006).unwrap();
  let p_distinct: f64 = (0..words).map(|i| 1.0 - i as f64 / 2048.0).product();
  let f = |k: usize| (1.0 - 1.0 / k as f64).powi(bytes as i32);
  let events: Vec<(&str, f64)> = vec![
    ("a word twice", 1.0 - p_distinct),
    ("the same word twice in a row", 1.0 - (1.0 - 1.0 / 2048.0f64).powi(words as i32 - 1)),
    ("a zero byte", 1.0 - f(256)),
    ("a byte of all ones", 1.0 - f(256)),
    ("two equal bytes in a row", 1.0 - (255.0 / 256.0f64).powi(bytes as i32 - 1)),
    ("few ones", p_few),
    ("many ones", p_few),
    ("a long run of equal bits", p_run(bits, run)),
    ("a short phrase", p_short),
    ("a long phrase", p_long),
    ("one of the first 16 words first", 16.0 / 2048.0),
    ("one of the last 16 words first", 16.0 / 2048.0),
    ("one of the first 16 words last", 16.0 / 2048.0),
    ("one of the last 16 words last", 16.0 / 2048.0),
    ("the first four words in order", (2045.0 * 2046.0 * 2047.0 * 2048.0 / 24.0) / 2048.0f64.powi(4)),
    ("the same bit as the previous phrase at both ends", 0.25)
  ];
  let mut seen = vec![0usize; events.len()];
  let mut cells = vec![[0usize; 256]; bytes];
  let mut firsts = vec![vec![0usize; 2048]; words];
  let mut all: std::collections::HashSet<Vec<u8>> = Default::default();
  let mut last: Vec<u8> = vec![0; bytes];
  for _ in 0..n {
    let t = m.generate_mnemonic(Some(LANGS[l])).map_err(|e| format!("generating: {}", e))?;
    let e = decode(l, &t, words)?;
    let w = rb::encode(&e);
    let ones: u32 = e.iter().map(|x| x.count_ones()).sum();
    let mut sorted = w.clone();
    sorted.sort();
    let mut longest = 0;
    let mut cur = 0;
    for i in 0..bits {
      cur = if i > 0 && bit(&e, i) == bit(&e, i - 1) { cur + 1 } else { 1 };
      longest = longest.max(cur);
    }
    let happened = [
      sorted.windows(2).any(|x| x[0] == x[1]),
      w.windows(2).any(|x| x[0] == x[1]),
      e.contains(&0),
      e.contains(&255),
      e.windows(2).any(|x| x[0] == x[1]),
      ones as usize <= few,
      ones as usize >= bits - few,
      longest >= run,
      t.len() <= short,
      t.len() >= long,
      w[0] < 16,
      w[0] >= 2032,
      w[words - 1] < 16,
      w[words - 1] >= 2032,
      w[0] < w[1] && w[1] < w[2] && w[2] < w[3],
      bit(&e, 0) == bit(&last, 0) && bit(&e, bits - 1) == bit(&last, bits - 1)
    ];
    for (i, h) in happened.iter().enumerate() {
      seen[i] += *h as usize;
    }
    for (i, x) in e.iter().enumerate() {
      cells[i][*x as usize] += 1;
    }
    for (i, x) in w.iter().enumerate() {
      firsts[i][*x as usize] += 1;
    }
    check!(all.insert(e.clone()), "entropy {} comes twice in {} phrases", hex(&e), n);
    last = e;
  }
  for (i, c) in cells.iter().enumerate() {
    for (v, k) in c.iter().enumerate() {
      check!(!surprising(n, *k, 1.0 / 256.0), "byte {} of the entropy is {} in {} of {} phrases", i, v, k, n);
    }
  }
  for (i, c) in firsts.iter().enumerate() {
    for (v, k) in c.iter().enumerate() {
      check!(!surprising(n, *k, 1.0 / 2048.0), "word {} is number {} of the list in {} of {} phrases", i, v, k, n);
    }
  }
  for (i, (what, p)) in events.iter().enumerate() {
    check!(!surprising(n, seen[i], *p), "{}: {} times in {} phrases, where chance has it {:.0} times", what, seen[i], n, p * n as f64);
  }
  Ok(())
}

/// the library's generator keeps exactly what the random source wrote
fn generate(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let k = s.idx(6);
  let t = types()[k];
  let src = s.bytes_n(32);
  let size = rb::SIZES[k];
  cx.nt();
  cx.note(|| format!("{} bytes from source {}", size, hex(&src)));
  let given: RefCell<Vec<u8>> = RefCell::new(Vec::new());
  let e = bip39::Entropy::generate(t, |b| {
    for x in b.iter_mut() {
      let v = src[given.borrow().len() % 32];
      *x = v;
      given.borrow_mut().push(v);
    }
  });
  check!(e.get_type() == t, "type {:?}", e.get_type());
  check!(given.borrow().len() == size, "{} bytes asked of the source for {}", given.borrow().len(), size);
  check!(e.as_ref() == &given.borrow()[..], "entropy {} from source {}", hex(e.as_ref()), hex(&given.borrow()));
  check!(e == variant(e.as_ref()), "the entropy has another type than its size");
  Ok(())
}

/// a failing system source never leads to a phrase or an encryption
fn fails(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let cfg = gen_cfg(s);
  let m = cfg.make(s)?;
  for _ in 0..s.below(3) {
    m.generate_mnemonic(None).map_err(|e| format!("generating: {}", e))?;
  }
  cx.nt();
  cx.note(|| format!("{:?}: the system gives no randomness", cfg));
  let l = s.idx(8);
  crate::osrand::fail(true);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.generate_mnemonic(Some(LANGS[l]))));
  crate::osrand::fail(false);
  take_panic();
  if let Ok(Ok(t)) = r {
    bail!("phrase {:?} without any randomness", t);
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C14",
    subs: vec![
      Sub {
        name: "each",
        rule: "phrases of managers of all six sizes in all languages and the default one, decoded by the reference; now and then a wallet is made from one",
        quick: 6_000,
        thorough: 400_000,
        enumerate: None,
        f: each
      },
      Sub {
        name: "spread",
        rule: "640 phrases each: repetition, balance and serial agreement of every bit, linear relations among all bits, agreement of bytes, bytes drawn from the system",
        quick: 400,
        thorough: 30_000,
        enumerate: None,
        f: spread
      },
      Sub {
        name: "rare",
        rule: "20,000 phrases each (now and then 200,000): repetition, how often each byte of the entropy has each value and each word of the phrase is each of the list, and how often 16 odd features appear (repeated words, constant bytes, few or many ones, long runs, short and long texts, words at the ends of the list), against exact probabilities with an error bound of e^-45",
        quick: 40,
        thorough: 8_000,
        enumerate: None,
        f: rare
      },
      Sub {
        name: "generate",
        rule: "Entropy::generate of every type from a recorded source",
        quick: 20_000,
        thorough: 1_000_000,
        enumerate: None,
        f: generate
      },
      Sub {
        name: "fails",
        rule: "generation while the operating system refuses randomness",
        quick: 300,
        thorough: 5_000,
        enumerate: None,
        f: fails
      }
    ]
  }
}
