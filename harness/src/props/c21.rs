//! The library built for every selection of networks: wallets handed from build to build.
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Build {
  child: Child,
  to: ChildStdin,
  from: BufReader<ChildStdout>
}
impl Drop for Build {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
thread_local! {
  static BUILDS: RefCell<BTreeMap<String, Build>> = const { RefCell::new(BTreeMap::new()) };
}

fn start(file: &str) -> Build {
  let exe = std::env::current_exe().expect("own path");
  let p = exe.parent().and_then(|p| p.parent()).expect("target").join(file);
  let mut child = Command::new(&p)
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::null())
    .spawn()
    .unwrap_or_else(|e| panic!("HARNESS: {} does not start: {}", p.display(), e));
  let to = child.stdin.take().expect("stdin");
  let from = BufReader::new(child.stdout.take().expect("stdout"));
  Build { child, to, from }
}

/// one request to the build for these networks; of an error, its kind
fn ask(mask: u32, req: &str) -> Result<String, String> {
  ask_full(mask, req).map(|a| a.split('\t').next().unwrap_or("").to_string())
}

/// with the error's text
pub fn ask_full(mask: u32, req: &str) -> Result<String, String> {
  ask_program(&format!("feat/kcfeat-{}", mask), &format!("build {}", name(mask)), req)
}

/// one request to a program under the target directory, which is started when first needed
pub fn ask_program(file: &str, name: &str, req: &str) -> Result<String, String> {
  BUILDS.with(|b| {
    let mut b = b.borrow_mut();
    let r = {
      let x = b.entry(file.to_string()).or_insert_with(|| start(file));
      let mut line = String::new();
      let ok = writeln!(x.to, "{}", req).and_then(|_| x.to.flush()).is_ok() && x.from.read_line(&mut line).map_or(false, |n| n > 0);
      if ok {
        Some(line.trim_end_matches('\n').to_string())
      } else {
        None
      }
    };
    let what = req.split(' ').next().unwrap_or("");
    match r {
      Some(l) if l.starts_with("panic") => Err(format!("{}: '{}' panics: {}", name, what, l)),
      Some(l) => Ok(l),
      None => {
        b.remove(file);
        Err(format!("{}: '{}' ends the process", name, what))
      }
    }
  })
}

pub fn name(mask: u32) -> String {
  let v: Vec<&str> = mask_nets(mask).into_iter().map(|n| NET_NAMES[n]).collect();
  format!("[{}]", v.join("+"))
}
pub fn x(b: &[u8]) -> String {
  format!("x{}", hex(b))
}
pub fn bytes(l: &str) -> Option<Vec<u8>> {
  if l.starts_with('x') {
    Some(unhex(&l[1..]))
  } else {
    None
  }
}
pub fn ids(mask: u32) -> Vec<u32> {
  let mut v: Vec<u32> = mask_nets(mask).into_iter().map(|n| COINS[n]).collect();
  v.sort();
  v
}
pub fn list(v: &[u32]) -> String {
  v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")
}
pub fn path_args(p: &P) -> String {
  p.0.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

/// the build makes a manager; the networks it then has
fn manage(s: &mut Src, cx: &mut Cx, b: u32) -> Result<u32, String> {
  check!(ask(b, "all")? == list(&ids(b)), "build {} lists networks {}", name(b), ask(b, "all")?);
  let (req, eff) = if s.chance(2, 3) {
    ("new".to_string(), b)
  } else {
    let pick = s.below(8) as u32;
    let mut v = ids(pick);
    if s.chance(1, 4) {
      v.push(s.u32_any());
    }
    if s.bool() {
      v.reverse();
    }
    // the extra identifier may be a network that exists
    let eff = mask_nets(b).into_iter().filter(|n| v.contains(&COINS[*n])).fold(0, |a, n| a | 1 << n);
    (format!("with {}", v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" ")).trim_end().to_string(), eff)
  };
  let a = ask(b, &req)?;
  cx.note(|| format!("build {} manager '{}': {}", name(b), req, a));
  if eff == 0 {
    check!(a == "err CantCalculateSeedSize", "build {} makes a manager of no network: {}", name(b), a);
  } else {
    check!(a == "ok", "build {} makes no manager by '{}': {}", name(b), req, a);
    for n in 0..3 {
      let h = ask(b, &format!("has {}", COINS[n]))?;
      check!(h == (eff >> n & 1 == 1).to_string(), "build {} has_network({}): {}", name(b), NET_NAMES[n], h);
    }
  }
  Ok(eff)
}

fn uses(s: &mut Src, b: u32, eff: u32, rec: &Plain) -> Result<(), String> {
  for n in 0..3 {
    let p = gen_path(s, n);
    let k = ask(b, &format!("pub {} {}", COINS[n], path_args(&p)))?;
    let d = if eff >> n & 1 == 1 { rec.keys.get(&COINS[n]) } else { None };
    match d {
      None => {
        check!(k == "err KeyDoesNotExist", "build {} has a key of {}: {}", name(b), NET_NAMES[n], k);
        let r = ask(b, &format!("sign {} x00 {}", COINS[n], path_args(&p)))?;
        check!(r == "err KeyDoesNotExist", "build {} signs for {}: {}", name(b), NET_NAMES[n], r);
      }
      Some(d) => {
        check!(k == x(&ref_pub_stored(n, d, &p)), "build {} {} path {}: public key {}", name(b), NET_NAMES[n], p.text(), k);
        if s.chance(1, 2) {
          let msg = s.bytes(60);
          let g = ask(b, &format!("sign {} {} {}", COINS[n], x(&msg), path_args(&p)))?;
          check!(bytes(&g).is_some(), "build {} does not sign for {}: {}", name(b), NET_NAMES[n], g);
          let v = ask(b, &format!("verify {} {} {} {}", COINS[n], x(&msg), g, path_args(&p)))?;
          check!(v == "true", "build {} verifies its {} signature: {}", name(b), NET_NAMES[n], v);
        }
        let mut q = p;
        q.0[3] = 2;
        let r = ask(b, &format!("pub {} {}", COINS[n], path_args(&q)))?;
        check!(r == "err KeyError", "build {} {} takes path {}: {}", name(b), NET_NAMES[n], q.text(), r);
      }
    }
  }
  Ok(())
}

fn written(blob: &str, pass: &str, want: &Plain, b: u32) -> Result<Vec<u8>, String> {
  let v = bytes(blob).ok_or_else(|| format!("build {}: {}", name(b), blob))?;
  let got = read_blob(&v, pass)?;
  let show = |p: &Plain| format!("{:?}", p.keys.iter().map(|(n, d)| format!("{}:{}", n, hex(d))).collect::<Vec<_>>());
  check!(
    got.seed == want.seed && got.mnemonic == want.mnemonic && got.lang == want.lang && got.keys == want.keys,
    "build {} stores seed {:?} phrase {:?} language {:?} keys {} instead of seed {:?} phrase {:?} language {:?} keys {}",
    name(b),
    got.seed.as_ref().map(|x| hex(x)),
    got.mnemonic,
    got.lang,
    show(&got),
    want.seed.as_ref().map(|x| hex(x)),
    want.mnemonic,
    want.lang,
    show(want)
  );
  Ok(v)
}

fn history(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut cur: Option<(Vec<u8>, String, Plain)> = None;
  let n = s.range(2, 7);
  for step in 0..n {
    let b = s.below(8) as u32;
    let eff = manage(s, cx, b)?;
    if eff == 0 {
      continue;
    }
    let op = if cur.is_none() { s.below(3) } else { s.weighted(&[1, 1, 1, 5, 3, 5, 2, 1, 2]) as u64 };
    if cur.is_some() {
      cx.nt();
    }
    let pass = gen_pass(s);
    match op {
      0 => {
        let seed = s.rand_n(64);
        cx.note(|| format!("{}: wallet of seed {} with {:?}", step, hex(&seed), pass));
        let a = ask(b, &format!("seed {} {}", x(&seed), x(pass.as_bytes())))?;
        let keys = mask_nets(eff).into_iter().map(|n| (COINS[n], ref_key_data(n, &seed))).collect();
        let rec = Plain { version: 2, seed: Some(seed), keys, ..Default::default() };
        let v = written(&a, &pass, &rec, b)?;
        cur = Some((v, pass, rec));
      }
      1 => {
        let words = if s.chance(1, 4) { 9 + 3 * s.below(2) as usize } else { mask_words(eff) };
        let (l, _, t) = gen_phrase(s, words);
        cx.note(|| format!("{}: wallet of phrase {:?} with {:?}", step, t, pass));
        let a = ask(b, &format!("phrase {} {} {}", x(t.as_bytes()), x(pass.as_bytes()), l))?;
        if words != mask_words(eff) {
          check!(a == "err MnemonicError", "build {} with {} takes a phrase of {} words: {}", name(b), name(eff), words, a);
          continue;
        }
        let seed = rb::seed(&t, b"");
        let keys = mask_nets(eff).into_iter().map(|n| (COINS[n], ref_key_data(n, &seed))).collect();
        let rec = Plain { version: 2, mnemonic: Some(t), lang: Some(l), keys, ..Default::default() };
        let v = written(&a, &pass, &rec, b)?;
        cur = Some((v, pass, rec));
      }
      2 => {
        // written elsewhere, with any networks
        let seed = s.rand_n(64);
        let mut rec = Plain { version: s.range(1, 2), ..Default::default() };
        for n in 0..3 {
          if s.bool() {
            rec.keys.insert(COINS[n], ref_key_data(n, &seed));
          }
        }
        if s.chance(1, 4) {
          rec.keys.insert(s.u32_any(), s.bytes(80));
          if COINS.iter().any(|c| rec.keys.get(c).map_or(false, |d| d.len() != 96 && d.len() != 77)) {
            continue;
          }
          for n in 0..3 {
            if rec.keys.contains_key(&COINS[n]) {
              rec.keys.insert(COINS[n], ref_key_data(n, &seed));
            }
          }
        }
        if rec.version == 2 {
          rec.seed = Some(seed);
        }
        cx.note(|| format!("{}: wallet written elsewhere, version {}, networks {:?}", step, rec.version, rec.keys.keys()));
        let plain = write_plain(&rec);
        cur = Some((write_blob(s, &plain, &pass), pass, rec));
      }
      3 => {
        let (v, p, rec) = cur.as_ref().unwrap();
        cx.note(|| format!("{}: build {} with {} opens", step, name(b), name(eff)));
        let a = ask(b, &format!("open {} {}", x(v), x(p.as_bytes())))?;
        let want: Vec<u32> = ids(eff).into_iter().filter(|n| rec.keys.contains_key(n)).collect();
        check!(a.trim_end() == format!("ok {}", list(&want)).trim_end(), "build {} with {} opens the wallet: {}, expected {:?}", name(b), name(eff), a, want);
        cx.label("opened");
        uses(s, b, eff, rec)?;
      }
      4 => {
        let (v, p, rec) = cur.take().unwrap();
        cx.note(|| format!("{}: build {} changes the password to {:?}", step, name(b), pass));
        let a = ask(b, &format!("change {} {} {}", x(&v), x(p.as_bytes()), x(pass.as_bytes())))?;
        let v = written(&a, &pass, &rec, b)?;
        cx.label("password changed");
        cur = Some((v, pass, rec));
      }
      5 => {
        let (v, p, mut rec) = cur.take().unwrap();
        let mut want: Vec<usize> = mask_nets(eff).into_iter().filter(|n| !rec.keys.contains_key(&COINS[*n])).collect();
        if want.is_empty() || s.chance(1, 4) {
          want = vec![0, 1, 2];
        }
        let n = *s.choose(&want);
        cx.note(|| format!("{}: build {} with {} adds {}", step, name(b), name(eff), NET_NAMES[n]));
        let a = ask(b, &format!("add {} {} {}", x(&v), x(p.as_bytes()), COINS[n]))?;
        // any reason that holds may be given
        let mut why: Vec<&str> = Vec::new();
        if eff >> n & 1 == 0 {
          why.push("err NetworkIsNotSupported");
        }
        if rec.keys.contains_key(&COINS[n]) {
          why.push("err KeyAlreadyExist");
        }
        if rec.seed.is_none() && rec.mnemonic.is_none() {
          why.push("err SeedIsNotSaved");
        } else if rec.seed.is_none() && rec.mnemonic.as_ref().map_or(false, |t| t.split(' ').count() != mask_words(eff)) {
          why.push("err MnemonicError");
        }
        if !why.is_empty() {
          check!(
            why.contains(&a.as_str()),
            "build {} with {} adds {}: {} instead of {:?}",
            name(b),
            name(eff),
            NET_NAMES[n],
            if a.starts_with('x') { "done" } else { &a },
            why
          );
          cx.label("network not added");
          cur = Some((v, p, rec));
        } else {
          let seed = rec.seed.clone().unwrap_or_else(|| rb::seed(rec.mnemonic.as_ref().unwrap(), b""));
          rec.keys.insert(COINS[n], ref_key_data(n, &seed));
          let v = written(&a, &p, &rec, b)?;
          cx.label("network added");
          cur = Some((v, p, rec));
        }
      }
      6 => {
        let (v, p, rec) = cur.as_ref().unwrap();
        let a = ask(b, &format!("keys {} {}", x(v), x(p.as_bytes())))?;
        let want = rec.keys.iter().map(|(n, d)| format!("{}:{}", n, x(d))).collect::<Vec<_>>().join(" ");
        check!(a.trim_end() == format!("ok {}", want).trim_end(), "build {} backs up {} instead of {}", name(b), a, want);
        let a = ask(b, &format!("mnemonic {} {}", x(v), x(p.as_bytes())))?;
        let want = match (&rec.mnemonic, rec.lang) {
          (Some(t), Some(l)) => format!("{} {:?}", x(t.as_bytes()), LANGS[l]),
          _ => "err SeedIsNotSaved".into()
        };
        check!(a == want, "build {} gives phrase {} instead of {}", name(b), a, want);
        cx.label("backed up");
      }
      7 => {
        let (v, p, _) = cur.as_ref().unwrap();
        let q = format!("{}?", p);
        for req in ["open", "keys", "mnemonic"] {
          let a = ask(b, &format!("{} {} {}", req, x(v), x(q.as_bytes())))?;
          check!(a == "err WrongPassword", "build {}: {} with a wrong password: {}", name(b), req, a);
        }
        cx.label("wrong password");
      }
      _ => {
        let l = s.idx(8);
        let a = ask(b, &format!("gen {}", l))?;
        let t = bytes(&a).and_then(|b| String::from_utf8(b).ok()).ok_or_else(|| format!("build {} generates no phrase: {}", name(b), a))?;
        let idx = rb::parse(l, &t).map_err(|e| format!("build {} generates {:?}: {:?}", name(b), t, e))?;
        check!(rb::decode(&idx).is_ok() && idx.len() == mask_words(eff), "build {} with {} generates {:?}", name(b), name(eff), t);
        cx.label("phrase generated");
        let a = ask(b, &format!("phrase {} x70 {}", x(t.as_bytes()), l))?;
        check!(a.starts_with('x'), "build {} refuses its own phrase {:?}: {}", name(b), t, a);
      }
    }
  }
  Ok(())
}

/// any request about one network, to a build that has it and to the build with all
fn same(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(3);
  let others = s.below(4) as u32;
  // spread the other two bits around bit n
  let b = 1 << n | (others & ((1 << n) - 1)) | (others >> n << (n + 1));
  let full = 7;
  if b == full {
    // the same build twice
    return Ok(());
  }
  cx.nt();
  cx.label(NET_NAMES[n]);
  let seed = s.rand_n(64);
  let mut data = ref_key_data(n, &seed);
  let twist = s.below(4);
  if twist == 3 {
    match s.below(3) {
      0 => data = s.bytes(100),
      1 => {
        let at = s.idx(data.len());
        data[at] ^= 1 << s.below(8);
      }
      _ => data.truncate(s.idx(data.len()))
    }
  }
  let mut rec = Plain { version: s.range(1, 2), ..Default::default() };
  if rec.version == 2 && s.bool() {
    rec.seed = Some(seed);
  }
  rec.keys.insert(COINS[n], data);
  let pass = gen_pass(s);
  let plain = write_plain(&rec);
  let blob = write_blob(s, &plain, &pass);
  let both = |req: &str| -> Result<String, String> {
    let (x, y) = (ask_full(b, req)?, ask_full(full, req)?);
    check!(x == y, "{}\n  build {}: {}\n  build {}: {}", req, name(b), x, name(full), y);
    Ok(x)
  };
  for x in [b, full] {
    let a = ask(x, &format!("with {}", COINS[n]))?;
    check!(a == "ok", "build {} makes no manager for {}: {}", name(x), NET_NAMES[n], a);
  }
  let a = both(&format!("open {} {}", x(&blob), x(pass.as_bytes())))?;
  cx.note(|| format!("{} in {} and all; opens: {}", NET_NAMES[n], name(b), a));
  both(&format!("add {} {} {}", x(&blob), x(pass.as_bytes()), COINS[n]))?;
  both(&format!("keys {} {}", x(&blob), x(pass.as_bytes())))?;
  for _ in 0..s.range(2, 10) {
    let mut p = gen_path(s, n);
    if s.chance(1, 3) {
      let at = s.idx(5);
      p.0[at] = s.u32_any();
    }
    let req = match s.below(5) {
      0 => format!("pub {} {}", COINS[n], path_args(&p)),
      1 => {
        let msg = s.bytes_far(60, 5000);
        format!("sign {} {} {}", COINS[n], x(&msg), path_args(&p))
      }
      2 => {
        let (msg, sig) = (s.bytes(40), s.bytes(100));
        format!("verify {} {} {} {}", COINS[n], x(&msg), x(&sig), path_args(&p))
      }
      3 => {
        // the one's signature, unchanged or changed, to both
        let msg = s.bytes(40);
        let g = ask(full, &format!("sign {} {} {}", COINS[n], x(&msg), path_args(&p)))?;
        let mut g = bytes(&g).unwrap_or_default();
        match s.below(4) {
          0 if !g.is_empty() => {
            let at = s.idx(g.len());
            g[at] ^= 1 << s.below(8);
          }
          1 => g.truncate(s.idx(g.len() + 1)),
          2 => g.push(s.u8()),
          _ => {}
        }
        format!("verify {} {} {} {}", COINS[n], x(&msg), x(&g), path_args(&p))
      }
      _ => {
        let mut t = p.text();
        if s.bool() {
          let at = s.idx(t.len() + 1);
          t.insert(at, *s.choose(&['x', '/', '\'', '9', 'm', ' ']));
        }
        format!("text {}", x(t.as_bytes()))
      }
    };
    let r = both(&req)?;
    cx.note(|| format!("{}: {}", req, r));
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C21",
    subs: vec![
    Sub {
      name: "same",
      rule: "requests about one network, valid and not, with sound and damaged key data, to a build that has it and to the build with all: the same answer, to the letter",
      quick: 600,
      thorough: 60_000,
      enumerate: None,
      f: same
    },
    Sub {
      name: "history",
      rule: "2..7 operations on one wallet, each done by the library built for one of the eight selections of networks, by a manager of all or some of them; the stored form judged by the reference after each",
      quick: 500,
      thorough: 40_000,
      enumerate: None,
      f: history
    }]
  }
}
