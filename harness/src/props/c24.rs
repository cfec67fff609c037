//! bip39 built with its optional serialization: values survive storing, the stored forms are fixed, nothing else changes.
use super::c21::{ask_program, x};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use crate::refimpl::json::{self, J};

#[path = "../../ser/src/ops.rs"]
mod ops;

const TYPES: [(&str, &str); 6] =
  [("9", "Type9Words"), ("12", "Type12Words"), ("15", "Type15Words"), ("18", "Type18Words"), ("21", "Type21Words"), ("24", "Type24Words")];
const WORD: &str = "MnemonicWordNotFoundInDictionary";
const SYMBOL: &str = "UnknownSymbol";

fn ask(req: &str) -> Result<String, String> {
  ask_program("ser/kcser", "bip39 with serialization", req)
}

#[derive(Clone, Debug, PartialEq)]
enum V {
  Type(usize),
  Phrase(String),
  Word(String),
  Hex(u64)
}
impl V {
  fn kind(&self) -> &'static str {
    match self {
      V::Type(_) => "type",
      V::Phrase(_) => "phrase",
      V::Word(_) => "word",
      V::Hex(_) => "hex"
    }
  }
  fn json(&self) -> J {
    match self {
      V::Type(t) => J::s(TYPES[*t].1),
      V::Phrase(p) => J::s(p),
      V::Word(w) => J::Obj(vec![(WORD.into(), J::s(w))]),
      V::Hex(n) => J::Obj(vec![(SYMBOL.into(), J::n(n))])
    }
  }
  fn binary(&self) -> Vec<u8> {
    let text = |t: &str| {
      let mut v = (t.len() as u64).to_le_bytes().to_vec();
      v.extend(t.as_bytes());
      v
    };
    match self {
      V::Type(t) => (*t as u32).to_le_bytes().to_vec(),
      V::Phrase(p) => text(p),
      V::Word(w) => {
        let mut v = vec![0; 4];
        v.extend(text(w));
        v
      }
      V::Hex(n) => {
        let mut v = vec![0; 4];
        v.extend(n.to_le_bytes());
        v
      }
    }
  }
  fn debug(&self) -> String {
    match self {
      V::Type(t) => TYPES[*t].1.to_string(),
      V::Phrase(p) => format!("MnemonicString({:?})", p),
      V::Word(w) => format!("{}({:?})", WORD, w),
      V::Hex(n) => format!("{}({})", SYMBOL, n)
    }
  }
}

/// JSON text of a value as others may write it: blanks, escapes
fn spell(s: &mut Src, j: &J) -> String {
  let mut r = Rng(s.u64());
  let style = s.below(4);
  fn blank(r: &mut Rng, style: u64, o: &mut String) {
    if style > 1 {
      for _ in 0..r.below(3) {
        o.push([' ', '\n', '\t', '\r'][r.below(4) as usize]);
      }
    }
  }
  fn go(r: &mut Rng, style: u64, j: &J, o: &mut String) {
    blank(r, style, o);
    match j {
      J::Str(t) => {
        o.push('"');
        for c in t.chars() {
          let must = c == '"' || c == '\\' || (c as u32) < 0x20;
          if must || (style % 2 == 1 && r.below(6) == 0) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
              o.push_str(&if r.below(2) == 0 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
            }
          } else {
            o.push(c);
          }
        }
        o.push('"');
      }
      J::Arr(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          go(r, style, x, o);
        }
        blank(r, style, o);
        o.push(']');
      }
      J::Obj(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          go(r, style, &J::s(k), o);
          blank(r, style, o);
          o.push(':');
          go(r, style, x, o);
        }
        blank(r, style, o);
        o.push('}');
      }
      J::Null => o.push_str("null"),
      J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
      J::Num(n) => o.push_str(n)
    }
    blank(r, style, o);
  }
  let mut o = String::new();
  go(&mut r, style, j, &mut o);
  o
}

/// the answer to writing or reading this value
fn stands_for(v: &V, a: &str, what: &str) -> Result<(), String> {
  let f: Vec<&str> = a.split(' ').collect();
  check!(f[0] == "ok" && f.len() >= 3, "{} {}: {}", what, v.debug(), a);
  let j = String::from_utf8(unhex(&f[1][1..])).map_err(|_| format!("{} {}: JSON is not text", what, v.debug()))?;
  check!(json::parse(j.as_bytes()).as_ref() == Some(&v.json()), "{} {}: its JSON is {}", what, v.debug(), j);
  check!(unhex(&f[2][1..]) == v.binary(), "{} {}: its binary form is {}", what, v.debug(), f[2]);
  if f.len() > 3 {
    let d = String::from_utf8(unhex(&f[3][1..])).unwrap_or_default();
    check!(d == v.debug(), "{} {} gives {}", what, v.debug(), d);
  }
  Ok(())
}

fn word_text(s: &mut Src) -> String {
  match s.below(3) {
    0 => s.text(20),
    1 => format!("{}{}", rb::words(s.idx(8))[s.idx(2048)], s.char()),
    _ => rb::words(s.idx(8))[s.idx(2048)].to_uppercase()
  }
}

fn values(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let v = match s.below(6) {
    0 => {
      let t = s.idx(6);
      stands_for(&V::Type(t), &ask(&format!("wtype {}", x(TYPES[t].0.as_bytes())))?, "writing")?;
      let u = s.idx(6);
      let o = ask(&format!("order {} {}", x(V::Type(t).json().write().as_bytes()), x(V::Type(u).json().write().as_bytes())))?;
      check!(o == format!("{:?}", t.cmp(&u)), "types of {} and {} words, read back, compare as {}", TYPES[t].0, TYPES[u].0, o);
      V::Type(t)
    }
    1 | 2 => {
      let n = *s.choose(&rb::COUNTS);
      let (l, e, t) = gen_phrase(s, n);
      let a = ask(&format!("wentropy {} {}", x(&e), l))?;
      stands_for(&V::Phrase(t.clone()), &a, "writing")?;
      let a = ask(&format!("wphrase {} {}", x(t.as_bytes()), l))?;
      stands_for(&V::Phrase(t.clone()), &a, "writing")?;
      if s.chance(1, 6) {
        let pass = s.bytes(40);
        let a = ask(&format!("use {} {}", x(J::s(&t).write().as_bytes()), x(&pass)))?;
        check!(a == x(&rb::seed(&t, &pass)), "the phrase {:?}, read back, gives seed {}", t, a);
        cx.label("seed of a stored phrase");
      }
      V::Phrase(t)
    }
    3 => {
      // any words of the list, whatever the checksum
      let l = s.idx(8);
      let n = *s.choose(&rb::COUNTS);
      let t = (0..n).map(|_| rb::words(l)[s.idx(2048)]).collect::<Vec<_>>().join(" ");
      let a = ask(&format!("wphrase {} {}", x(t.as_bytes()), l))?;
      stands_for(&V::Phrase(t.clone()), &a, "writing")?;
      V::Phrase(t)
    }
    4 => {
      let l = s.idx(8);
      let t = word_text(s).replace(' ', "");
      if rb::index(l, &t).is_some() {
        return Ok(());
      }
      let a = ask(&format!("wword {} {}", x(t.as_bytes()), l))?;
      stands_for(&V::Word(t.clone()), &a, "writing")?;
      V::Word(t)
    }
    _ => {
      let n = s.len_far(80, 3_000);
      let mut t: String = "0a".chars().cycle().take(n).collect();
      t.push('g');
      let a = ask(&format!("whex {}", x(t.as_bytes())))?;
      stands_for(&V::Hex(n as u64), &a, "writing")?;
      V::Hex(n as u64)
    }
  };
  cx.nt();
  cx.label(v.kind());
  cx.note(|| v.debug());
  // written by someone else
  let j = spell(s, &v.json());
  cx.note(|| j.clone());
  let a = ask(&format!("read {} json {}", v.kind(), x(j.as_bytes())))?;
  stands_for(&v, &a, &format!("reading {:?}", j))?;
  let a = ask(&format!("read {} binary {}", v.kind(), x(&v.binary())))?;
  stands_for(&v, &a, "reading the binary form of")
}

fn is_phrase(t: &str) -> bool {
  (0..8).any(|l| rb::parse(l, t).is_ok())
}

/// a phrase that came from nowhere
fn unchecked(cx: &mut Cx, t: &str, how: &str) -> Result<(), String> {
  cx.known(
    "phrase-read-unchecked",
    "known: phrase-read-unchecked",
    &format!("reading {} makes a MnemonicString of {:?}, which no word list accepts", how, t)
  )
}

fn gen_json(s: &mut Src, depth: u32) -> J {
  match s.below(if depth == 0 { 8 } else { 10 }) {
    0 => J::Null,
    1 => J::Bool(s.bool()),
    2 => J::Num(if s.bool() { s.u64().to_string() } else { format!("-{}", s.below(300)) }),
    3 => J::Num("1.5".into()),
    4 | 5 => {
      let t = match s.below(4) {
        0 => s.text(12),
        1 => {
          let t = TYPES[s.idx(6)];
          if s.bool() { t.1.to_string() } else { t.0.to_string() }
        }
        2 => s.choose(&[WORD, SYMBOL]).to_string(),
        _ => TYPES[s.idx(6)].1.to_lowercase()
      };
      J::Str(t)
    }
    6 => {
      let n = s.range(0, 14) as usize;
      let l = s.idx(8);
      J::Str((0..n).map(|_| rb::words(l)[s.idx(2048)]).collect::<Vec<_>>().join(" "))
    }
    7 => {
      // a good phrase, damaged
      let n = *s.choose(&rb::COUNTS);
      let (_, _, t) = gen_phrase(s, n);
      let mut v: Vec<char> = t.chars().collect();
      let i = s.idx(v.len());
      match s.below(4) {
        0 => v.insert(i, ' '),
        1 => {
          v.remove(i);
        }
        2 => v[i] = s.char(),
        _ => {}
      }
      J::Str(v.into_iter().collect())
    }
    8 => {
      let n = s.below(3);
      J::Arr((0..n).map(|_| gen_json(s, depth - 1)).collect())
    }
    _ => {
      let n = if s.chance(2, 3) { 1 } else { s.below(3) };
      J::Obj(
        (0..n)
          .map(|_| {
            let k = match s.below(4) {
              0 => WORD.to_string(),
              1 => SYMBOL.to_string(),
              2 => TYPES[s.idx(6)].1.to_string(),
              _ => s.text(6)
            };
            (k, gen_json(s, depth - 1))
          })
          .collect()
      )
    }
  }
}

/// the value JSON tells, if any; None where either answer would do
fn told(kind: &str, j: &J) -> Option<Option<V>> {
  Some(match (kind, j) {
    ("type", J::Str(t)) => TYPES.iter().position(|x| x.1 == t).map(V::Type),
    // another spelling that some formats know
    ("type", J::Obj(v)) if v.len() == 1 && v[0].1 == J::Null => return None,
    ("phrase", J::Str(t)) => Some(V::Phrase(t.clone())),
    ("word", J::Obj(v)) if v.len() == 1 && v[0].0 == WORD => match &v[0].1 {
      J::Str(t) => Some(V::Word(t.clone())),
      _ => None
    },
    ("hex", J::Obj(v)) if v.len() == 1 && v[0].0 == SYMBOL => match &v[0].1 {
      J::Num(n) => n.parse().ok().map(V::Hex),
      _ => None
    },
    _ => None
  })
}

fn foreign(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let kind = *s.choose(&["type", "phrase", "word", "hex"]);
  if s.chance(1, 3) {
    // bytes
    let b = if s.bool() {
      s.bytes(40)
    } else {
      let v = match kind {
        "type" => V::Type(s.idx(6)),
        "phrase" => V::Phrase(s.text(20)),
        "word" => V::Word(s.text(20)),
        _ => V::Hex(s.u64())
      };
      let mut b = v.binary();
      match s.below(4) {
        0 => {
          let n = s.idx(b.len() + 1);
          b.truncate(n);
        }
        1 | 2 => {
          let i = s.idx(b.len());
          b[i] = s.u64() as u8;
        }
        _ => b.extend(s.bytes(4))
      }
      b
    };
    cx.note(|| format!("{} from bytes {}", kind, hex(&b)));
    let a = ask(&format!("read {} binary {}", kind, x(&b)))?;
    let num = |b: &[u8]| if b.len() < 4 { None } else { Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]])) };
    let long = |b: &[u8]| if b.len() < 8 { None } else { Some(u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])) };
    let text = |b: &[u8]| {
      let n = long(b)?;
      if n > b.len() as u64 - 8 {
        return None;
      }
      std::str::from_utf8(&b[8..8 + n as usize]).ok().map(|t| t.to_string())
    };
    let want = match kind {
      "type" => num(&b).filter(|n| *n < 6).map(|n| V::Type(n as usize)),
      "phrase" => text(&b).map(V::Phrase),
      "word" => num(&b).filter(|n| *n == 0).and_then(|_| text(&b[4..])).map(V::Word),
      _ => num(&b).filter(|n| *n == 0).and_then(|_| long(&b[4..])).map(V::Hex)
    };
    return answer(cx, want, &a, &format!("bytes {} as {}", hex(&b), kind));
  }
  let j = gen_json(s, 2);
  let t = spell(s, &j);
  if s.chance(1, 4) {
    // not JSON any more, or another JSON
    let mut v: Vec<char> = t.chars().collect();
    let i = s.idx(v.len() + 1);
    match s.below(3) {
      0 => v.truncate(i),
      1 if i < v.len() => v[i] = s.char(),
      _ => v.insert(i, *s.choose(&['"', '{', '}', '[', ']', ',', ':', '\\', '0', ' ', '\u{0}']))
    }
    let t: String = v.into_iter().collect();
    cx.note(|| format!("{} from {:?}", kind, t));
    let a = ask(&format!("read {} json {}", kind, x(t.as_bytes())))?;
    check!(!a.starts_with("fail"), "reading {:?} as {}: {}", t, kind, a);
    return Ok(());
  }
  cx.note(|| format!("{} from {:?}", kind, t));
  let a = ask(&format!("read {} json {}", kind, x(t.as_bytes())))?;
  match told(kind, &j) {
    None => {
      check!(!a.starts_with("fail"), "reading {:?} as {}: {}", t, kind, a);
      Ok(())
    }
    Some(want) => answer(cx, want, &a, &format!("{:?} as {}", t, kind))
  }
}

fn answer(cx: &mut Cx, want: Option<V>, a: &str, what: &str) -> Result<(), String> {
  match want {
    None => {
      cx.label("refused");
      check!(a == "err", "reading {}: {}", what, a);
    }
    Some(V::Phrase(t)) if !is_phrase(&t) => {
      cx.nt();
      // refusing it is what the type promises
      if a != "err" {
        stands_for(&V::Phrase(t.clone()), a, &format!("reading {}:", what))?;
        unchecked(cx, &t, what)?;
      }
    }
    Some(v) => {
      cx.nt();
      cx.label("read");
      stands_for(&v, a, &format!("reading {}:", what))?;
    }
  }
  Ok(())
}

fn same(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let l = s.idx(8);
  let req = match s.below(8) {
    0 => {
      let e = if s.chance(1, 5) { s.bytes(40) } else { gen_entropy(s) };
      format!("entropy {} {}", x(&e), l)
    }
    1 => {
      let n = s.range(1, 40) as usize;
      format!("generate {} {}", s.choose(&["9", "12", "15", "18", "21", "24", "", "10", "012"]), x(&s.rand_n(n)))
    }
    2 => {
      let n = if s.chance(1, 6) { s.range(0, 26) as usize } else { *s.choose(&rb::COUNTS) };
      let t = if s.bool() && rb::COUNTS.contains(&n) {
        gen_phrase(s, n).2
      } else {
        let mut v: Vec<String> = (0..n).map(|_| rb::words(l)[s.idx(2048)].to_string()).collect();
        if s.chance(1, 3) && n > 0 {
          let i = s.idx(n);
          v[i] = word_text(s);
        }
        v.join(" ")
      };
      format!("phrase {} {} {}", x(t.as_bytes()), l, x(&s.bytes(20)))
    }
    3 => {
      let mut t: String = (0..s.len(40)).map(|_| *s.choose(&['0', 'a', 'F', '9', ' ', '\n'])).collect();
      if s.chance(1, 3) {
        t.push(s.char());
      }
      format!("hex {}", x(t.as_bytes()))
    }
    4 => format!("bits {}", x(&s.bytes(120))),
    5 => {
      let t = if s.bool() { s.text(4) } else { TYPES[s.idx(6)].0.to_string() };
      let n = if s.bool() { s.range(0, 300) } else { *s.choose(&[9, 12, 15, 18, 21, 24, 96, 128, 160, 192, 224, 256]) };
      format!("type {} {}", x(t.as_bytes()), n)
    }
    6 => {
      let n = if s.bool() { s.below(2048) } else { s.range(2040, 2060) };
      let w = if s.bool() { rb::words(s.idx(8))[s.idx(2048)].to_string() } else { word_text(s) };
      format!("index {} {} {}", n, l, x(w.as_bytes()))
    }
    _ => {
      let n = if s.bool() { 64 } else { s.below(130) as usize };
      format!("seed {}", x(&s.rand_n(n)))
    }
  };
  cx.note(|| req.clone());
  let a = ask(&req)?;
  if !a.contains("err ") {
    cx.nt();
  }
  let f: Vec<&str> = req.split(' ').collect();
  let b = guard(&req, || ops::op(&f))?.replace('\n', "\\n");
  check!(a == b, "{}\n  with serialization: {}\n  without: {}", req, a, b);
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C24",
    subs: vec![
      Sub {
        name: "values",
        rule: "a phrase type, a phrase of any size and language, an unknown word or a hex error, written as JSON (5 ways) and binary, alone and in lists; the JSON and the bytes are as the reference writes them; read from an independently spelled text and the reference's bytes",
        quick: 60_000,
        thorough: 2_000_000,
        enumerate: None,
        f: values
      },
      Sub {
        name: "foreign",
        rule: "JSON of any shape, damaged text, and bytes, read as each type: the value they tell, or refused; counted when they tell a value",
        quick: 90_000,
        thorough: 3_000_000,
        enumerate: None,
        f: foreign
      },
      Sub {
        name: "same",
        rule: "one bip39 operation in the builds with and without serialization: the same values and texts; counted when it succeeds",
        quick: 24_000,
        thorough: 600_000,
        enumerate: None,
        f: same
      },
    ]
  }
}
