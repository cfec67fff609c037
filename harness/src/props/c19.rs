use crate::common::*;
use crate::engine::*;
use bip39::util::bits::{BitReaderBy11, BitWriterBy11};
use bip39::util::hex as h;

fn hex_roundtrip(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let b = if s.chance(1, 10) { s.bytes_far(600, 70_000) } else { s.bytes(600) };
  let mut t = String::new();
  for x in &b {
    t.push_str(&format!("{:02x}", x));
  }
  if !b.is_empty() {
    cx.nt();
  }
  cx.note(|| format!("bytes {}", show(&b)));
  let e = h::encode(&b);
  check!(e == t, "encoded as {}", e);
  check!(h::decode(&e) == Ok(b.clone()), "decoded as {:?}", h::decode(&e));
  // case and blanks do not matter
  let mut u = String::new();
  let caps = s.bool();
  for c in t.chars() {
    if s.chance(1, 8) {
      for _ in 0..s.range(1, 3) {
        u.push(*s.choose(&[' ', '\t', '\n', '\r']));
      }
    }
    u.push(if caps && s.bool() { c.to_ascii_uppercase() } else { c });
    if u.len() > 400 {
      break;
    }
  }
  let digits: String = u.chars().filter(|c| c.is_ascii_hexdigit()).collect();
  if digits.len() % 2 == 0 {
    let want: Vec<u8> = unhex(&digits);
    check!(h::decode(&u) == Ok(want.clone()), "{:?} decoded as {:?}", u, h::decode(&u));
  }
  Ok(())
}

fn hex_text(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let t: String = if s.bool() {
    s.text(40)
  } else {
    let n = s.len_far(60, 4_000);
    let mut v: Vec<char> = {
      let mut r = Rng(s.u64());
      let some = ['0', '9', 'a', 'f', 'A', 'F', ' ', '\n', '5', 'c', 'D', '\t'];
      (0..n).map(|_| some[r.below(12) as usize]).collect()
    };
    for _ in 0..s.below(3) {
      let c = if s.bool() { *s.choose(&['g', 'G', '/', ':', '@', '`', '\u{0}', '\u{b}', '\u{c}', '\u{a0}', 'x']) } else { s.char() };
      let i = s.idx(v.len() + 1);
      v.insert(i, c);
    }
    v.into_iter().collect()
  };
  cx.note(|| format!("text {:?}", t));
  let bad = t.bytes().position(|b| !b.is_ascii_hexdigit() && ![b' ', b'\t', b'\n', b'\r'].contains(&b));
  let r = guard("decoding", || h::decode(&t))?;
  match bad {
    Some(i) => {
      cx.nt();
      check!(r == Err(h::Error::UnknownSymbol(i)), "first foreign character at byte {}, got {:?}", i, r);
      let msg = format!("{}", r.unwrap_err());
      check!(has_number(&msg, i as u64), "the message is '{}'", msg);
    }
    None => {
      let d: String = t.chars().filter(|c| c.is_ascii_hexdigit()).collect();
      match r {
        // an odd digit at the end is outside the property
        Ok(v) => {
          let w = unhex(&d[..d.len() / 2 * 2]);
          check!(d.len() % 2 == 1 || v == w, "decoded as {}", hex(&v));
        }
        Err(e) => check!(d.len() % 2 == 1, "refused: {}", e)
      }
    }
  }
  Ok(())
}

fn bits(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = if s.chance(1, 10) { s.len_far(400, 12_000) } else { s.len(400) };
  let seed = s.u64();
  let mut r = Rng(seed);
  let style = s.below(4);
  let v: Vec<u16> = (0..n)
    .map(|i| match style {
      0 => (r.next() % 2048) as u16,
      1 => 2047,
      2 => {
        if r.next() % 4 == 0 {
          1 << (r.next() % 11)
        } else {
          0
        }
      }
      _ => (i % 2048) as u16
    })
    .collect();
  if n > 1 {
    cx.nt();
  }
  cx.note(|| format!("{} values {:?}", n, &v[..v.len().min(24)]));
  let mut w = BitWriterBy11::new();
  for x in &v {
    w.write(*x);
  }
  let b = w.to_bytes();
  // most significant bit first, zero padded
  let mut want = vec![0u8; (n * 11 + 7) / 8];
  for (i, x) in v.iter().enumerate() {
    for j in 0..11 {
      if x >> (10 - j) & 1 == 1 {
        let k = i * 11 + j;
        want[k / 8] |= 0x80 >> (k % 8);
      }
    }
  }
  check!(b == want, "{} values packed as {} instead of {}", n, show(&b), show(&want));
  read_all(&b, &want)
}

fn read_all(b: &[u8], w: &[u8]) -> Result<(), String> {
  let mut rd = BitReaderBy11::new(b);
  let total = b.len() * 8;
  let mut pos = 0;
  loop {
    let left = (total - pos) / 11;
    let size = guard("size", || rd.size())?;
    check!(size == left, "at bit {} of {} the reader counts {} values, there are {}", pos, total, size, left);
    if left == 0 {
      return Ok(());
    }
    let mut want = 0u16;
    for k in pos..pos + 11 {
      want = want << 1 | (w[k / 8] >> (7 - k % 8) & 1) as u16;
    }
    let got = guard("reading", || rd.read())?;
    check!(got == want, "value at bit {} read as {} instead of {}", pos, got, want);
    pos += 11;
  }
}

fn bits_any(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let b = if s.chance(1, 10) { s.bytes_far(400, 12_000) } else { s.bytes(400) };
  if b.len() > 2 {
    cx.nt();
  }
  cx.note(|| format!("reading {}", show(&b)));
  read_all(&b, &b)
}

/// every value in every of the eight bit positions
fn bits_all(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let x = s.below(2048) as u16;
  cx.nt();
  cx.note(|| format!("value {} in all positions", x));
  for fill in [0u16, 2047, 0x555] {
    for pos in 0..16 {
      for len in [pos + 1, 24] {
        let v: Vec<u16> = (0..len).map(|i| if i == pos { x } else { fill }).collect();
        let mut w = BitWriterBy11::new();
        for y in &v {
          w.write(*y);
        }
        let b = w.to_bytes();
        check!(b.len() == (len * 11 + 7) / 8, "{} values take {} bytes", len, b.len());
        let mut rd = BitReaderBy11::new(&b);
        for (i, y) in v.iter().enumerate() {
          check!(rd.size() >= len - i, "the reader counts {} of {} left", rd.size(), len - i);
          let g = rd.read();
          check!(g == *y, "value {} at place {} (others {}) read as {}", y, i, fill, g);
        }
      }
    }
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C19",
    subs: vec![
      Sub {
        name: "hex_roundtrip",
        rule: "byte strings of 0..600 bytes, encoded and decoded, also with mixed case and inserted blanks; non-trivial: not empty",
        quick: 600_000,
        thorough: 30_000_000,
        enumerate: None,
        f: hex_roundtrip
      },
      Sub {
        name: "hex_text",
        rule: "arbitrary and nearly hexadecimal text; non-trivial: has a foreign character",
        quick: 1_500_000,
        thorough: 60_000_000,
        enumerate: None,
        f: hex_text
      },
      Sub {
        name: "bits",
        rule: "0..400 11-bit values (random, all ones, sparse, counting) written, compared bit by bit, read back; non-trivial: at least two",
        quick: 300_000,
        thorough: 15_000_000,
        enumerate: None,
        f: bits
      },
      Sub {
        name: "bits_any",
        rule: "any bytes read as 11-bit values with the reader's count checked at every position; non-trivial: more than two bytes",
        quick: 300_000,
        thorough: 15_000_000,
        enumerate: None,
        f: bits_any
      },
      Sub {
        name: "bits_all",
        rule: "every 11-bit value in 16 places between zeros, ones and alternating bits",
        quick: 0,
        thorough: 0,
        enumerate: Some(2048),
        f: bits_all
      }
    ]
  }
}
