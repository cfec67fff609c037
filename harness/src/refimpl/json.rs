//! A small strict JSON reader and a writer, for the stored format and for the harness's own files.

#[derive(Debug, Clone, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  Num(String), // literal text
  Str(String),
  Arr(Vec<J>),
  Obj(Vec<(String, J)>)
}

impl J {
  pub fn n<T: std::fmt::Display>(x: T) -> J {
    J::Num(x.to_string())
  }
  pub fn s(x: &str) -> J {
    J::Str(x.to_string())
  }
  pub fn get(&self, k: &str) -> Option<&J> {
    match self {
      J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
      _ => None
    }
  }
  pub fn str(&self) -> Option<&str> {
    match self {
      J::Str(s) => Some(s),
      _ => None
    }
  }
  pub fn u64(&self) -> Option<u64> {
    match self {
      J::Num(s) => s.parse().ok(),
      _ => None
    }
  }
  pub fn arr(&self) -> Option<&[J]> {
    match self {
      J::Arr(v) => Some(v),
      _ => None
    }
  }
  pub fn write(&self) -> String {
    let mut s = String::new();
    self.w(&mut s);
    s
  }
  fn w(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
      J::Num(n) => o.push_str(n),
      J::Str(s) => quote(s, o),
      J::Arr(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          x.w(o);
        }
        o.push(']');
      }
      J::Obj(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          quote(k, o);
          o.push(':');
          x.w(o);
        }
        o.push('}');
      }
    }
  }
}

fn quote(s: &str, o: &mut String) {
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c)
    }
  }
  o.push('"');
}

pub fn parse(b: &[u8]) -> Option<J> {
  let s = std::str::from_utf8(b).ok()?;
  let mut p = P { b: s.as_bytes(), i: 0 };
  p.ws();
  let v = p.value(0)?;
  p.ws();
  if p.i == p.b.len() {
    Some(v)
  } else {
    None
  }
}

struct P<'a> {
  b: &'a [u8],
  i: usize
}

impl<'a> P<'a> {
  fn ws(&mut self) {
    while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
      self.i += 1;
    }
  }
  fn peek(&self) -> Option<u8> {
    self.b.get(self.i).copied()
  }
  fn lit(&mut self, s: &str, v: J) -> Option<J> {
    if self.b[self.i..].starts_with(s.as_bytes()) {
      self.i += s.len();
      Some(v)
    } else {
      None
    }
  }
  fn value(&mut self, depth: usize) -> Option<J> {
    if depth > 100 {
      return None;
    }
    match self.peek()? {
      b'n' => self.lit("null", J::Null),
      b't' => self.lit("true", J::Bool(true)),
      b'f' => self.lit("false", J::Bool(false)),
      b'"' => self.string().map(J::Str),
      b'[' => {
        self.i += 1;
        let mut v = Vec::new();
        self.ws();
        if self.peek()? == b']' {
          self.i += 1;
          return Some(J::Arr(v));
        }
        loop {
          self.ws();
          v.push(self.value(depth + 1)?);
          self.ws();
          match self.peek()? {
            b',' => self.i += 1,
            b']' => {
              self.i += 1;
              return Some(J::Arr(v));
            }
            _ => return None
          }
        }
      }
      b'{' => {
        self.i += 1;
        let mut v = Vec::new();
        self.ws();
        if self.peek()? == b'}' {
          self.i += 1;
          return Some(J::Obj(v));
        }
        loop {
          self.ws();
          if self.peek()? != b'"' {
            return None;
          }
          let k = self.string()?;
          self.ws();
          if self.peek()? != b':' {
            return None;
          }
          self.i += 1;
          self.ws();
          v.push((k, self.value(depth + 1)?));
          self.ws();
          match self.peek()? {
            b',' => self.i += 1,
            b'}' => {
              self.i += 1;
              return Some(J::Obj(v));
            }
            _ => return None
          }
        }
      }
      _ => self.number()
    }
  }
  fn number(&mut self) -> Option<J> {
    let st = self.i;
    if self.peek() == Some(b'-') {
      self.i += 1;
    }
    let d0 = self.i;
    while matches!(self.peek(), Some(b'0'..=b'9')) {
      self.i += 1;
    }
    if self.i == d0 || (self.b[d0] == b'0' && self.i - d0 > 1) {
      return None;
    }
    if self.peek() == Some(b'.') {
      self.i += 1;
      let d = self.i;
      while matches!(self.peek(), Some(b'0'..=b'9')) {
        self.i += 1;
      }
      if self.i == d {
        return None;
      }
    }
    if matches!(self.peek(), Some(b'e' | b'E')) {
      self.i += 1;
      if matches!(self.peek(), Some(b'+' | b'-')) {
        self.i += 1;
      }
      let d = self.i;
      while matches!(self.peek(), Some(b'0'..=b'9')) {
        self.i += 1;
      }
      if self.i == d {
        return None;
      }
    }
    Some(J::Num(String::from_utf8_lossy(&self.b[st..self.i]).into_owned()))
  }
  fn hex4(&mut self) -> Option<u32> {
    let h = self.b.get(self.i..self.i + 4)?;
    let mut v = 0;
    for c in h {
      v = v * 16 + (*c as char).to_digit(16)?;
    }
    self.i += 4;
    Some(v)
  }
  fn string(&mut self) -> Option<String> {
    self.i += 1;
    let mut o: Vec<u8> = Vec::new();
    loop {
      let c = self.peek()?;
      self.i += 1;
      match c {
        b'"' => return String::from_utf8(o).ok(),
        b'\\' => {
          let e = self.peek()?;
          self.i += 1;
          let ch = match e {
            b'"' => '"',
            b'\\' => '\\',
            b'/' => '/',
            b'b' => '\u{8}',
            b'f' => '\u{c}',
            b'n' => '\n',
            b'r' => '\r',
            b't' => '\t',
            b'u' => {
              let hi = self.hex4()?;
              if (0xd800..0xdc00).contains(&hi) {
                if self.b.get(self.i..self.i + 2)? != b"\\u" {
                  return None;
                }
                self.i += 2;
                let lo = self.hex4()?;
                if !(0xdc00..0xe000).contains(&lo) {
                  return None;
                }
                char::from_u32(0x10000 + ((hi - 0xd800) << 10) + (lo - 0xdc00))?
              } else {
                char::from_u32(hi)?
              }
            }
            _ => return None
          };
          let mut buf = [0u8; 4];
          o.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
        }
        c if c < 0x20 => return None,
        c => o.push(c)
      }
    }
  }
}
