use crate::common::*;
use crate::engine::*;
use keychain::GenericKeyPath;

enum Part {
  Num(u32),
  Bad,
  /// "+5": a number to some, not to others
  Either(u32)
}

fn part(t: &str) -> Part {
  let (body, hard) = match t.strip_suffix('\'') {
    Some(b) => (b, true),
    None => (t, false)
  };
  let (digits, plus) = match body.strip_prefix('+') {
    Some(d) => (d, true),
    None => (body, false)
  };
  if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
    return Part::Bad;
  }
  let d = digits.trim_start_matches('0');
  if d.len() > 10 {
    return Part::Bad;
  }
  let v: u64 = if d.is_empty() { 0 } else { d.parse().unwrap() };
  if v >= 1 << 32 || (hard && v >= 1 << 31) {
    return Part::Bad;
  }
  let v = v as u32 + if hard { HARD } else { 0 };
  if plus {
    Part::Either(v)
  } else {
    Part::Num(v)
  }
}

/// Ok(Some): must parse to this; Ok(None) must fail; Err(p): may fail, or parse to p
fn reference(t: &str) -> Result<Option<P>, P> {
  let parts: Vec<&str> = t.split('/').map(|x| x.trim()).collect();
  if parts.len() != 6 || parts[0] != "m" {
    return Ok(None);
  }
  let mut p = [0u32; 5];
  let mut unsure = false;
  for i in 0..5 {
    match part(parts[i + 1]) {
      Part::Num(v) => p[i] = v,
      Part::Either(v) => {
        p[i] = v;
        unsure = true;
      }
      Part::Bad => return Ok(None)
    }
  }
  if unsure {
    Err(P(p))
  } else {
    Ok(Some(P(p)))
  }
}

fn judge(t: &str, cx: &mut Cx) -> Result<(), String> {
  let got = guard("parsing", || GenericKeyPath::from(t))?;
  let want = reference(t);
  match (want, got) {
    (Ok(Some(p)), Ok(g)) => {
      cx.label("parsed");
      let q = P::of(&g);
      check!(q == p, "{:?} parsed as {} instead of {}", t, q.text(), p.text());
      let printed = guard("printing", || g.to_string())?;
      check!(printed == p.text(), "{:?} printed as {:?} instead of {:?}", t, printed, p.text());
      check!(String::from(&g) == p.text(), "converted to {:?}", String::from(&g));
      let again = GenericKeyPath::from(&printed).map_err(|e| format!("own text {:?} refused: {}", printed, e))?;
      check!(P::of(&again) == p, "own text {:?} parsed as {}", printed, P::of(&again).text());
    }
    (Ok(None), Err(e)) => {
      cx.nt();
      cx.label("refused");
      guard("printing the error", || format!("{} {:?}", e, e))?;
    }
    (Ok(Some(p)), Err(e)) => bail!("{:?} is {} but is refused: {}", t, p.text(), e),
    (Ok(None), Ok(g)) => bail!("{:?} parsed as {}", t, P::of(&g).text()),
    (Err(p), Ok(g)) => check!(P::of(&g) == p, "{:?} parsed as {}", t, P::of(&g).text()),
    (Err(_), Err(_)) => {}
  }
  Ok(())
}

fn roundtrip(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let p = P([s.u32_any(), s.u32_any(), s.u32_any(), s.u32_any(), s.u32_any()]);
  cx.nt();
  cx.note(|| format!("{:?} as {}", p.0, p.text()));
  let g = guard("parsing", || GenericKeyPath::from(&p.text()))?.map_err(|e| format!("{} refused: {}", p.text(), e))?;
  check!(P::of(&g) == p, "{} parsed as {:?}", p.text(), P::of(&g).0);
  check!(g.to_string() == p.text(), "{} printed as {}", p.text(), g.to_string());
  Ok(())
}

fn spaces(s: &mut Src) -> String {
  (0..s.below(3)).map(|_| *s.choose(&[' ', '\t', '\n', '\u{a0}', '\u{3000}', '\r'])).collect()
}

fn number(s: &mut Src) -> String {
  let v = s.u32_any();
  match s.below(16) {
    0..=4 => (v & 0x7fff_ffff).to_string(),
    5..=8 => format!("{}'", v & 0x7fff_ffff),
    9 => v.to_string(),
    10 => format!("{}'", v),
    11 => format!("{}{}", v as u64 + (s.u32_any() as u64) * 4294967296, if s.bool() { "'" } else { "" }),
    12 => format!("{}{}", "0".repeat(s.len_far(14, 5_000)), v & 0x7fff_ffff),
    13 => ["", "'", "''", "1''", "'1", "-1", "+1", "+1'", "0x10", "1e3", "1.0", "1_0", "+", "-", " ", "1 '", "h", "44h", "44H", "44\u{2019}", "\u{663}", "\u{ff11}'"]
      [s.idx(22)]
    .to_string(),
    14 => s.text(6),
    _ => {
      let mut t: Vec<char> = format!("{}'", v & 0x7fff_ffff).chars().collect();
      let i = s.idx(t.len());
      t[i] = s.char();
      t.into_iter().collect()
    }
  }
}

fn grammar(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut parts: Vec<String> = Vec::new();
  let head = match s.below(14) {
    0 => "M".to_string(),
    1 => String::new(),
    2 => s.text(4),
    3 => "m'".to_string(),
    _ => "m".to_string()
  };
  parts.push(head);
  let n = if s.chance(1, 6) { s.len_far(8, 300) } else { 5 };
  for _ in 0..n {
    // most parts good, so that one bad part decides
    let t = if s.chance(2, 3) {
      let v = s.u32_any() & 0x7fff_ffff;
      if s.bool() {
        format!("{}'", v)
      } else {
        v.to_string()
      }
    } else {
      number(s)
    };
    parts.push(t);
  }
  let pad = s.chance(1, 4);
  let t = parts
    .iter()
    .map(|p| if pad { format!("{}{}{}", spaces(s), p, spaces(s)) } else { p.clone() })
    .collect::<Vec<_>>()
    .join("/");
  cx.note(|| format!("text {:?}", t));
  judge(&t, cx)
}

fn noise(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let t: String = match s.below(3) {
    0 => s.text(60),
    1 => {
      let n = s.len(40);
      (0..n).map(|_| *s.choose(&['m', '/', '\'', '0', '1', '4', '9', ' ', '2', '8', '\u{e9}', '-', '+'])).collect()
    }
    _ => {
      let mut v: Vec<char> = "m/44'/60'/0'/0/0".chars().collect();
      for _ in 0..s.range(1, 4) {
        let i = s.idx(v.len());
        match s.below(3) {
          0 => v[i] = s.char(),
          1 => v.insert(i, s.char()),
          _ => {
            v.remove(i);
          }
        }
        if v.is_empty() {
          break;
        }
      }
      v.into_iter().collect()
    }
  };
  cx.note(|| format!("text {:?}", t));
  judge(&t, cx)
}

pub fn prop() -> Prop {
  Prop {
    id: "C10",
    subs: vec![
      Sub {
        name: "roundtrip",
        rule: "five 32-bit numbers (boundaries and random) printed by the reference, parsed and printed back",
        quick: 2_000_000,
        thorough: 80_000_000,
        enumerate: None,
        f: roundtrip
      },
      Sub {
        name: "grammar",
        rule: "paths assembled from good and bad parts, counts, heads and padding, against a reference parser; non-trivial: to be refused",
        quick: 2_000_000,
        thorough: 80_000_000,
        enumerate: None,
        f: grammar
      },
      Sub {
        name: "noise",
        rule: "arbitrary text and character-level edits of a path; non-trivial: to be refused",
        quick: 2_000_000,
        thorough: 80_000_000,
        enumerate: None,
        f: noise
      }
    ]
  }
}
