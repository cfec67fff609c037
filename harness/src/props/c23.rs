//! C programs compiled from the generated header, for every selection of networks, beside the same build driven from Rust.
use super::c21::{ask_program, bytes, ids, list, name, path_args, x};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use keychain::networks::{bitcoin, cardano, ethereum};

struct Pair {
  mask: u32,
  backup: bool,
  c: String,
  what: String
}

impl Pair {
  fn gen(s: &mut Src) -> Pair {
    let mask = if s.chance(1, 3) { 7 } else { s.below(8) as u32 };
    let backup = s.chance(2, 3);
    let dynamic = s.bool();
    let b = if backup { "b" } else { "" };
    Pair {
      mask,
      backup,
      c: format!("cabi/kccabi-{}{}-{}", mask, b, if dynamic { "d" } else { "s" }),
      what: format!(
        "C program with {}{}, {} library",
        name(mask),
        if backup { " and backup" } else { "" },
        if dynamic { "dynamic" } else { "static" }
      )
    }
  }
  /// the C program's answer
  fn c(&self, req: &str) -> Result<String, String> {
    let a = ask_program(&self.c, &self.what, req)?;
    check!(!a.contains("\tFAULT "), "{}: '{}': {}", self.what, req, a);
    Ok(a)
  }
  fn r(&self, req: &str) -> Result<String, String> {
    ask_program(&format!("feat/kcfeat-{}", self.mask), &format!("build {}", name(self.mask)), req)
  }
  /// both give the same answer
  fn both(&self, req: &str) -> Result<String, String> {
    let (c, r) = (self.c(req)?, self.r(req)?);
    check!(c.trim_end() == r.trim_end(), "{}\n  {}: {}\n  from Rust: {}", req, self.what, c, r);
    Ok(c)
  }
  /// both store the same wallet or refuse alike
  fn stored(&self, req: &str, pass: &str) -> Result<Option<(Vec<u8>, Vec<u8>, Plain)>, String> {
    let (c, r) = (self.c(req)?, self.r(req)?);
    match (bytes(&c), bytes(&r)) {
      (Some(v), Some(w)) => {
        let (a, b) = (read_blob(&v, pass)?, read_blob(&w, pass)?);
        check!(
          a.version == b.version && a.seed == b.seed && a.mnemonic == b.mnemonic && a.lang == b.lang && a.keys == b.keys,
          "{}: {} stores another wallet than Rust does",
          req,
          self.what
        );
        Ok(Some((v, w, a)))
      }
      _ => {
        check!(c == r, "{}\n  {}: {}\n  from Rust: {}", req, self.what, c, r);
        Ok(None)
      }
    }
  }
}

/// C texts end at the first NUL
fn c_pass(s: &mut Src) -> String {
  gen_pass(s).replace('\0', "0")
}

/// bytes around or inside of this text that make it no text
fn broken(s: &mut Src, text: &str) -> Vec<u8> {
  let bad: &[&[u8]] = &[
    b"\xff",
    b"\x80",
    b"\xc3",
    b"\xc0\xaf",
    b"\xe2\x82",
    b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80",
    b"\xf0\x9f\x98",
    b"\xfe\xff",
    b"\xe9"
  ];
  let at = match s.below(3) {
    0 => 0,
    1 => text.len(),
    _ => {
      let k = s.idx(text.chars().count() + 1);
      text.char_indices().nth(k).map_or(text.len(), |c| c.0)
    }
  };
  let mut v = text.as_bytes().to_vec();
  let b = s.choose(bad).to_vec();
  v.splice(at..at, b);
  if std::str::from_utf8(&v).is_ok() {
    v.push(0xff);
  }
  v
}

/// what is no text is refused everywhere, also where reading it loosely or in part would give the right one
fn no_text(s: &mut Src, p: &Pair, cur: &Option<(Vec<u8>, String, Plain)>) -> Result<(), String> {
  let (l, _, phrase) = gen_phrase(s, mask_words(p.mask));
  let pass = c_pass(s);
  let seed = s.rand_n(64);
  let mut reqs = vec![
    format!("text {}", x(&broken(s, "m/44'/60'/0'/0/0"))),
    format!("seed {} {}", x(&seed), x(&broken(s, &pass))),
    format!("phrase {} {} {}", x(phrase.as_bytes()), x(&broken(s, &pass)), l),
    format!("phrase {} {} {}", x(&broken(s, &phrase)), x(pass.as_bytes()), l),
  ];
  // the password as stored has the character that stands for broken bytes
  let rec = Plain {
    version: 2,
    seed: Some(seed.clone()),
    keys: (0..3).filter(|n| p.mask >> n & 1 == 1).map(|n| (COINS[n], ref_key_data(n, &seed))).collect(),
    ..Default::default()
  };
  let plain = write_plain(&rec);
  let loose = format!("{}\u{fffd}", pass);
  let mut wallets = vec![(write_blob(s, &plain, &loose), [pass.as_bytes(), b"\xff"].concat())];
  if let Some((v, w, _)) = cur {
    wallets.push((v.clone(), broken(s, w)));
  }
  for (v, bad) in wallets {
    reqs.push(format!("open {} {}", x(&v), x(&bad)));
    reqs.push(format!("change {} {} {}", x(&v), x(&bad), x(pass.as_bytes())));
    reqs.push(format!("add {} {} {}", x(&v), x(&bad), COINS[s.idx(3)]));
    if p.backup {
      reqs.push(format!("keys {} {}", x(&v), x(&bad)));
      reqs.push(format!("mnemonic {} {}", x(&v), x(&bad)));
    }
  }
  if let Some((v, w, _)) = cur {
    reqs.push(format!("change {} {} {}", x(v), x(w.as_bytes()), x(&broken(s, &pass))));
  }
  for req in reqs {
    let a = p.c(&req)?;
    check!(a.starts_with("err "), "{}: '{}' has a text that is none, and is answered {}", p.what, req, a);
  }
  Ok(())
}

fn path_answer(r: Result<[u32; 5], keychain::Error>) -> String {
  match r {
    Ok(p) => path_args(&P(p)),
    Err(e) => format!("err {}\t{}", err_kind(&e), format!("{}", e).replace('\n', "\\n"))
  }
}
fn five(p: &dyn keychain::KeyPath) -> [u32; 5] {
  P::of(p).0
}

/// path texts and constructors
fn paths(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let p = Pair::gen(s);
  cx.label(if p.c.ends_with('d') { "dynamic" } else { "static" });
  for _ in 0..s.range(5, 20) {
    let good = s.chance(2, 3);
    let hard = |s: &mut Src| if good { gen_index(s) } else { s.u32_any() };
    let (req, want) = match s.below(5) {
      0 | 1 => {
        let mut q = P([0; 5]);
        for v in q.0.iter_mut() {
          *v = s.u32_any();
        }
        let mut t = respell(s, &q.text());
        if s.chance(1, 2) {
          let at = s.idx(t.chars().count() + 1);
          let at = t.char_indices().nth(at).map_or(t.len(), |c| c.0);
          t.insert_str(at, *s.choose(&["x", "/", "'", "9", "4294967296", "m", " ", "é", "\u{3000}"]));
        }
        let t = t.replace('\0', "0");
        let w = match keychain::GenericKeyPath::from(&t) {
          Ok(q) => Ok(five(&q)),
          Err(e) => Err(e.into())
        };
        (format!("text {}", x(t.as_bytes())), w)
      }
      2 if p.mask & 1 == 1 => {
        let (kind, test) = (s.below(3), s.bool());
        let (a, c, d) = (hard(s), if good { s.below(2) as u32 } else { s.u32_any() }, hard(s));
        let r = match kind {
          0 => bitcoin::KeyPath::bip44(test, a, c, d),
          1 => bitcoin::KeyPath::bip49(test, a, c, d),
          _ => bitcoin::KeyPath::bip84(test, a, c, d)
        };
        let w = r.map(|q| five(&q)).map_err(|e| e.into());
        (format!("btc{} {} {} {} {}", [44, 49, 84][kind as usize], test as u32, a, c, d), w)
      }
      3 if p.mask & 2 == 2 => {
        let a = hard(s);
        if s.bool() {
          (format!("eth {}", a), ethereum::KeyPath::new(a).map(|q| five(&q)).map_err(|e| e.into()))
        } else {
          (format!("metamask {}", a), ethereum::KeyPath::new_metamask(a).map(|q| five(&q)).map_err(|e| e.into()))
        }
      }
      4 if p.mask & 4 == 4 => {
        let (a, c, d) = (hard(s), if good { s.below(2) as u32 } else { s.u32_any() }, hard(s));
        (format!("ada {} {} {}", a, c, d), cardano::KeyPath::new(a, c, d).map(|q| five(&q)).map_err(|e| e.into()))
      }
      _ => continue
    };
    let want = path_answer(want);
    let got = p.c(&req)?;
    if !want.starts_with("err") {
      cx.nt();
    }
    cx.note(|| format!("{}: {}: {}", p.what, req, got));
    check!(got == want, "{}: '{}' gives {} instead of {}", p.what, req, got, want);
  }
  Ok(())
}

fn uses(s: &mut Src, p: &Pair, rec: &Plain) -> Result<(), String> {
  for _ in 0..s.range(2, 6) {
    let n = s.idx(3);
    let mut q = gen_path(s, n);
    if s.chance(1, 5) {
      let at = s.idx(5);
      q.0[at] = s.u32_any();
    }
    let t = path_args(&q);
    let k = p.both(&format!("pub {} {}", COINS[n], t))?;
    if let (true, Some(d), true) = (p.mask >> n & 1 == 1, rec.keys.get(&COINS[n]), path_ok(n, &q)) {
      check!(k == x(&ref_pub_stored(n, d, &q)), "{}: {} {}: public key {}", p.what, NET_NAMES[n], q.text(), k);
    }
    let msg = s.bytes_far(60, 5000);
    let g = p.both(&format!("sign {} {} {}", COINS[n], x(&msg), t))?;
    let mut g = bytes(&g).unwrap_or_else(|| s.bytes(100));
    match s.below(5) {
      0 if !g.is_empty() => {
        let at = s.idx(g.len());
        g[at] ^= 1 << s.below(8);
      }
      1 => g.truncate(s.idx(g.len() + 1)),
      2 => g.push(s.u8()),
      _ => {}
    }
    p.both(&format!("verify {} {} {} {}", COINS[n], x(&msg), x(&g), t))?;
  }
  Ok(())
}

/// one wallet through the calls of several programs
fn wallets(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut cur: Option<(Vec<u8>, String, Plain)> = None;
  for step in 0..s.range(2, 6) {
    let p = Pair::gen(s);
    let all = p.both("all")?;
    check!(all == list(&ids(p.mask)), "{}: networks {}", p.what, all);
    let made = p.both("new")?;
    check!((made == "ok") == (p.mask != 0), "{}: new manager: {}", p.what, made);
    if p.mask == 0 {
      continue;
    }
    let net = *s.choose(&COINS);
    p.both(&format!("has {}", if s.chance(1, 4) { s.u32_any() } else { net }))?;
    cx.label(if p.c.ends_with('d') { "dynamic" } else { "static" });
    let op = if cur.is_none() { s.below(3) } else { s.weighted(&[1, 1, 1, 6, 3, 4, 3, 2, 1, 1]) as u64 };
    if s.chance(1, 4) {
      no_text(s, &p, &cur)?;
      cx.label("no text");
    }
    if cur.is_some() {
      cx.nt();
    }
    let pass = c_pass(s);
    cx.note(|| format!("{}: {}: operation {}", step, p.what, op));
    match op {
      0 => {
        let n = if s.chance(1, 5) { s.len(100) } else { 64 };
        let seed = s.rand_n(n);
        if let Some((v, _, rec)) = p.stored(&format!("seed {} {}", x(&seed), x(pass.as_bytes())), &pass)? {
          check!(rec.seed.as_deref() == Some(&seed[..]), "{}: another seed is stored", p.what);
          cur = Some((v, pass, rec));
        }
      }
      1 => {
        let words = if s.chance(1, 4) { 9 + 3 * s.below(2) as usize } else { mask_words(p.mask) };
        let (l, _, mut t) = gen_phrase(s, words);
        if s.chance(1, 4) {
          t = t.replacen(' ', *s.choose(&["  ", "\t", " x ", "\u{3000}"]), 1);
        }
        let l = if s.chance(1, 6) { s.idx(8) } else { l };
        let req = format!("phrase {} {} {}", x(t.as_bytes()), x(pass.as_bytes()), l);
        if let Some((v, _, rec)) = p.stored(&req, &pass)? {
          check!(rec.mnemonic.as_ref() == Some(&t) && rec.lang == Some(l), "{}: another phrase or language is stored", p.what);
          cur = Some((v, pass, rec));
        }
      }
      2 => {
        // from elsewhere
        let seed = s.rand_n(64);
        let mut rec = Plain { version: s.range(1, 2), ..Default::default() };
        for n in 0..3 {
          if s.chance(2, 3) {
            rec.keys.insert(COINS[n], ref_key_data(n, &seed));
          }
        }
        if rec.version == 2 && s.bool() {
          rec.seed = Some(seed);
        }
        let plain = write_plain(&rec);
        cur = Some((write_blob(s, &plain, &pass), pass, rec));
      }
      3 => {
        let (v, w, rec) = cur.as_ref().unwrap();
        let a = p.both(&format!("open {} {}", x(v), x(w.as_bytes())))?;
        let want: Vec<u32> = ids(p.mask).into_iter().filter(|n| rec.keys.contains_key(n)).collect();
        check!(a.trim_end() == format!("ok {}", list(&want)).trim_end(), "{} opens the wallet: {}, expected {:?}", p.what, a, want);
        cx.label("opened");
        uses(s, &p, rec)?;
      }
      4 => {
        let (v, w, rec) = cur.take().unwrap();
        let req = format!("change {} {} {}", x(&v), x(w.as_bytes()), x(pass.as_bytes()));
        let (v, w, now) = p.stored(&req, &pass)?.ok_or_else(|| format!("{}: the password is not changed", p.what))?;
        check!(now.keys == rec.keys && now.seed == rec.seed && now.mnemonic == rec.mnemonic, "{}: another wallet after the password", p.what);
        // either one's
        cur = Some((if s.bool() { v } else { w }, pass, now));
        cx.label("password changed");
      }
      5 => {
        let (v, w, rec) = cur.take().unwrap();
        let n = s.idx(3);
        let req = format!("add {} {} {}", x(&v), x(w.as_bytes()), COINS[n]);
        match p.stored(&req, &w)? {
          Some((a, b, now)) => {
            check!(now.keys.len() == rec.keys.len() + 1, "{}: adding {} gives {} networks", p.what, NET_NAMES[n], now.keys.len());
            cx.label("network added");
            cur = Some((if s.bool() { a } else { b }, w, now));
          }
          None => cur = Some((v, w, rec))
        }
      }
      6 if p.backup => {
        let (v, w, rec) = cur.as_ref().unwrap();
        let a = p.both(&format!("keys {} {}", x(v), x(w.as_bytes())))?;
        let want = rec.keys.iter().map(|(n, d)| format!("{}:{}", n, x(d))).collect::<Vec<_>>().join(" ");
        check!(a.trim_end() == format!("ok {}", want).trim_end(), "{} backs up {} instead of {}", p.what, a, want);
        p.both(&format!("mnemonic {} {}", x(v), x(w.as_bytes())))?;
        cx.label("backed up");
      }
      7 => {
        // wrong or impossible passwords, cut and changed data
        let (v, w, _) = cur.as_ref().unwrap();
        let mut v = v.clone();
        let mut q = w.clone();
        match s.below(4) {
          0 => q.push('?'),
          1 => v.truncate(s.idx(v.len() + 1)),
          2 => v.truncate(s.idx(61)),
          _ => {
            let at = s.idx(v.len());
            v[at] ^= 1 << s.below(8);
          }
        }
        let ops: &[&str] = if p.backup { &["open", "keys", "mnemonic"] } else { &["open"] };
        for req in ops {
          let a = p.both(&format!("{} {} {}", req, x(&v), x(q.as_bytes())))?;
          cx.note(|| format!("{}: {}", req, a));
        }
        let a = p.c(&format!("open {} xff", x(&v)))?;
        check!(a.starts_with("err "), "{}: opens with a password that is no text: {}", p.what, a);
        cx.label("refused");
      }
      8 => {
        let l = s.idx(8);
        let a = p.c(&format!("gen {}", l))?;
        let t = bytes(&a).and_then(|b| String::from_utf8(b).ok()).ok_or_else(|| format!("{} generates no phrase: {}", p.what, a))?;
        let idx = rb::parse(l, &t).map_err(|e| format!("{} generates {:?}: {:?}", p.what, t, e))?;
        check!(rb::decode(&idx).is_ok() && idx.len() == mask_words(p.mask), "{} generates {:?}", p.what, t);
        cx.label("phrase generated");
      }
      _ => {
        let (v, w, _) = cur.as_ref().unwrap();
        p.c(&format!("open {} {}", x(v), x(w.as_bytes())))?;
        let a = p.c(&format!("drop {}", s.below(2)))?;
        check!(a == "ok", "{}: deleting: {}", p.what, a);
        cx.label("deleted");
      }
    }
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C23",
    subs: vec![
      Sub {
        name: "paths",
        rule: "5..20 path texts and constructor calls by a C program with one of 32 builds; at least one is accepted",
        quick: 4_000,
        thorough: 400_000,
        enumerate: None,
        f: paths
      },
      Sub {
        name: "wallets",
        rule: "2..6 operations on one wallet, each by a C program built for one of the eight selections of networks, with or without backup, linked statically or dynamically, and by the same build from Rust: the same answers to the letter, the same stored wallets; passwords, phrases and paths that are no text are refused",
        quick: 600,
        thorough: 40_000,
        enumerate: None,
        f: wallets
      },
    ]
  }
}
