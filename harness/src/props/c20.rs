//! Several threads at once, each with wallets, phrases, paths and C handles of its own.
use super::plug::*;
use crate::capi::{Call, World};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use keychain::{Key, KeyFactory, Keychain, KeychainManager, Network};
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug)]
enum Step {
  /// make a manager: built-in networks, or with a custom one that fails or panics when it makes key data
  Manager(u32, u8),
  FromSeed(Vec<u8>, String),
  FromPhrase(usize, String, String),
  /// a stored wallet of the case, known to every thread
  Take(usize),
  Open(bool),
  Change(String, bool),
  Add(u32),
  Keys(bool),
  Phrase,
  Generate(usize),
  Pub(usize, P),
  Sign(usize, P, Vec<u8>),
  Verify(usize, P, Vec<u8>, Vec<u8>),
  Direct(usize, Vec<u8>, P),
  Read(usize, String),
  Seed(usize, String, Vec<u8>),
  Text(String),
  Make(u8, u32, u32, u32),
  C(Call),
  /// a failure inside the library's caller
  Crash
}

struct Crasher(u8);
impl KeyFactory for Crasher {
  fn network(&self) -> Network {
    Network(4242)
  }
  fn seed_size(&self) -> keychain::SeedSize {
    keychain::SeedSize { min: 96, max: 256 }
  }
  fn key_from_data(&self, d: &[u8]) -> Result<Box<dyn Key>, keychain::KeyError> {
    match self.0 {
      2 => panic!("plug-in panics while loading"),
      3 => Err(keychain::KeyError::InvalidKeySize(1, 2)),
      _ => Ok(Box::new(PlugKey { net: 4242, data: d.to_vec() }))
    }
  }
  fn key_data_from_seed(&self, s: &[u8]) -> Result<Vec<u8>, keychain::KeyError> {
    match self.0 {
      1 => panic!("plug-in panics while making"),
      4 => Err(keychain::KeyError::InvalidKeySize(3, 4)),
      _ => Ok(s.to_vec())
    }
  }
}

fn make(mask: u32, kind: u8) -> Result<KeychainManager, keychain::Error> {
  let mut f: Vec<Box<dyn KeyFactory>> = mask_nets(mask).into_iter().map(factory).collect();
  if kind > 0 {
    f.push(Crasher(kind).boxed());
  }
  KeychainManager::with_factories(f)
}

/// one thread's run of its steps; what it saw, step by step
fn play(steps: &[Step], shared: &[(Vec<u8>, String)], salt: u64) -> Vec<String> {
  crate::osrand::reseed(salt);
  let mut m = make(7, 0).ok();
  let mut cur: (Vec<u8>, String) = shared[0].clone();
  let mut kc: Option<Keychain> = None;
  let mut w = World::default();
  let mut out = Vec::new();
  let mut fresh = Vec::new();
  for st in steps {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(st, shared, &mut m, &mut cur, &mut kc, &mut w, &mut fresh)));
    out.push(match r {
      Ok(t) => t,
      Err(e) => {
        take_panic();
        let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&'static str>().map(|s| s.to_string()));
        format!("panic {}", t.unwrap_or_default())
      }
    });
  }
  let d = w.delete_everything();
  out.push(format!("{:?}", d));
  out.push(format!("{}{}", FRESH, fresh.join(" ")));
  out
}
/// the last of a thread's results: what it drew at random, which is nobody else's
const FRESH: &str = "fresh ";

fn distinct(all: &[Vec<String>]) -> Result<(), String> {
  let mut seen = std::collections::BTreeMap::new();
  for (i, r) in all.iter().enumerate() {
    for x in r.last().and_then(|l| l.strip_prefix(FRESH)).unwrap_or("").split(' ').filter(|x| !x.is_empty()) {
      let zeros = x.as_bytes().chunks(16).any(|c| c.len() == 16 && c.iter().all(|b| *b == b'0'));
      check!(!zeros, "thread {}: random data {} of which 8 bytes in a row are zero", i, x);
      if let Some(j) = seen.insert(x.to_string(), i) {
        bail!("threads {} and {} drew the same random data {}", j, i, x);
      }
    }
  }
  Ok(())
}

/// salt and nonce of a stored wallet
fn head(b: &[u8]) -> Vec<String> {
  b.get(..44).map(|h| vec![hex(&h[..32]), hex(&h[32..])]).unwrap_or_default()
}

fn res<T>(r: Result<T, keychain::Error>, f: impl FnOnce(T) -> String) -> String {
  match r {
    Ok(v) => f(v),
    Err(e) => format!("{}: {}", err_kind(&e), e)
  }
}

fn step(
  st: &Step, shared: &[(Vec<u8>, String)], m: &mut Option<KeychainManager>, cur: &mut (Vec<u8>, String), kc: &mut Option<Keychain>,
  w: &mut World, fresh: &mut Vec<String>
) -> String {
  let other = |p: &str, right: bool| if right { p.to_string() } else { format!("{}!", p) };
  macro_rules! man {
    () => {
      match m {
        Some(m) => m,
        None => return "no manager".into()
      }
    };
  }
  macro_rules! open {
    () => {
      match kc {
        Some(k) => k,
        None => return "no wallet".into()
      }
    };
  }
  match st {
    Step::Manager(mask, kind) => {
      let r = make(*mask, *kind);
      let t = match &r {
        Ok(_) => "manager".to_string(),
        Err(e) => format!("{}", e)
      };
      *m = r.ok();
      t
    }
    Step::FromSeed(seed, p) => res(man!().keychain_data_from_seed(seed, p), |b| {
      let n = b.len();
      fresh.extend(head(&b));
      *cur = (b, p.clone());
      format!("wallet of {} bytes", n)
    }),
    Step::FromPhrase(l, t, p) => res(man!().keychain_data_from_mnemonic(t, p, Some(LANGS[*l])), |b| {
      let n = b.len();
      fresh.extend(head(&b));
      *cur = (b, p.clone());
      format!("wallet of {} bytes", n)
    }),
    Step::Take(i) => {
      *cur = shared[*i % shared.len()].clone();
      String::new()
    }
    Step::Open(right) => res(man!().keychain_from_data(&cur.0, &other(&cur.1, *right)), |k| {
      let t = format!("{:?}", sorted_nets(&k));
      *kc = Some(k);
      t
    }),
    Step::Change(p, right) => res(man!().change_password(&cur.0, &other(&cur.1, *right), p), |b| {
      let n = b.len();
      fresh.extend(head(&b));
      *cur = (b, p.clone());
      format!("wallet of {} bytes", n)
    }),
    Step::Add(n) => res(man!().add_network(&cur.0, &cur.1, Network(*n)), |b| {
      let n = b.len();
      fresh.extend(head(&b));
      cur.0 = b;
      format!("wallet of {} bytes", n)
    }),
    Step::Keys(right) => res(man!().get_keys_data(&cur.0, &other(&cur.1, *right)), |k| {
      let mut k: Vec<(u32, Vec<u8>)> = k.into_iter().map(|(n, d)| (n.0, d)).collect();
      k.sort();
      k.iter().map(|(n, d)| format!("{}:{}", n, hex(d))).collect::<Vec<_>>().join(" ")
    }),
    Step::Phrase => res(man!().retrieve_mnemonic(&cur.0, &cur.1), |(t, l)| format!("{} {:?}", t, l)),
    Step::Generate(l) => res(man!().generate_mnemonic(Some(LANGS[*l])), |t| {
      let e = rb::parse(*l, &t);
      if let Ok(e) = &e {
        fresh.push(e.iter().map(|x| format!("{:04x}", x)).collect());
      }
      format!("{} words, {:?}", t.split(' ').count(), e.is_ok())
    }),
    Step::Pub(n, p) => res(open!().pub_key(&net(*n), p), |k| hex(&k)),
    Step::Sign(n, p, d) => {
      let k = open!();
      res(k.sign(&net(*n), d, p), |s| format!("{} bytes, {}", s.len(), res(k.verify(&net(*n), d, &s, p), |b| b.to_string())))
    }
    Step::Verify(n, p, d, s) => res(open!().verify(&net(*n), d, s, p), |b| b.to_string()),
    Step::Direct(n, seed, p) => match key_of(*n, seed) {
      Ok(k) => k.pub_key(p).map_or_else(|e| format!("{}", e), |x| hex(&x)),
      Err(e) => e
    },
    Step::Read(l, t) => match bip39::Mnemonics::from_string(dict(*l), t).and_then(|m| bip39::Entropy::from_mnemonics(&m)) {
      Ok(e) => {
        let m = e.to_mnemonics();
        let back = m.to_string(dict(*l));
        format!("{} {}", hex(e.as_ref()), &*back)
      }
      Err(e) => format!("{}", e)
    },
    Step::Seed(l, t, p) => match bip39::MnemonicString::new(dict(*l), t.clone()) {
      Ok(m) => hex(bip39::Seed::from_mnemonic_string(&m, p).as_ref()),
      Err(e) => format!("{}", e)
    },
    Step::Text(t) => match keychain::GenericKeyPath::from(t) {
      Ok(p) => format!("{} {}", p.to_string(), P::of(&p).text()),
      Err(e) => format!("{}", e)
    },
    Step::Make(k, a, c, d) => {
      macro_rules! show {
        ($x:expr) => {
          match $x {
            Ok(p) => P::of(&p).text(),
            Err(e) => format!("{}", e)
          }
        };
      }
      match k {
        0 => show!(keychain::networks::bitcoin::KeyPath::bip44(c & 1 == 1, *a, *c, *d)),
        1 => show!(keychain::networks::cardano::KeyPath::new(*a, *c, *d)),
        _ => show!(keychain::networks::ethereum::KeyPath::new(*a))
      }
    }
    Step::C(c) => {
      // blobs and handles of this thread
      let c = match c {
        Call::Open(m, _, _) => Call::Open(*m, cur.0.clone(), cur.1.clone().into_bytes()),
        c => c.clone()
      };
      let (nm, nk) = (w.managers.len(), w.keychains.len());
      let usable = match &c {
        Call::Has(m, _) | Call::Gen(m, _) | Call::FromSeed(m, _, _) | Call::FromPhrase(m, _, _, _) | Call::Open(m, _, _) => *m < nm,
        Call::Pub(k, _, _) | Call::Sign(k, _, _, _) | Call::Nets(k) => *k < nk,
        _ => true
      };
      if !usable || cur.1.contains('\0') {
        return "no handle".into();
      }
      match w.call(&c) {
        Ok(Ok(v)) => match (&c, v) {
          // content that is random by design
          (Call::Gen(..), crate::capi::Val::Text(t)) => format!("{} words", t.split(|c| c == ' ' || c == '\u{3000}').count()),
          (Call::FromSeed(..), crate::capi::Val::Data(d)) | (Call::FromPhrase(..), crate::capi::Val::Data(d)) => {
            fresh.extend(head(&d));
            format!("{} bytes", d.len())
          }
          (Call::Nets(_), crate::capi::Val::Nets(mut n)) => {
            n.sort();
            format!("{:?}", n)
          }
          (Call::Sign(..), crate::capi::Val::Data(d)) => format!("{} bytes", d.len()),
          (_, v) => format!("{:?}", v)
        },
        Ok(Err((k, t))) => format!("error {} {}", k, t),
        Err(e) => format!("PROTOCOL {}", e)
      }
    }
    Step::Crash => panic!("the caller's own panic")
  }
}

fn c_call(s: &mut Src, seed: &[u8]) -> Call {
  let pass = if s.chance(1, 4) { vec![b'p', 0xff] } else { vec![b'p'] };
  let n = s.idx(3);
  match s.below(9) {
    0 | 1 => Call::New,
    2 => Call::Has(0, *s.choose(&COINS)),
    3 => Call::Gen(0, s.idx(8)),
    4 => Call::Path(gen_text(s).replace('\0', "").into_bytes()),
    5 => Call::Pub(0, COINS[n], gen_path(s, n).0),
    6 => Call::Sign(0, COINS[n], seed.to_vec(), gen_path(s, n).0),
    7 => Call::Nets(0),
    _ => {
      if s.chance(1, 3) {
        Call::FromSeed(0, seed.to_vec(), pass)
      } else {
        Call::FromSeed(0, seed[..60].to_vec(), pass)
      }
    }
  }
}

fn gen_text(s: &mut Src) -> String {
  match s.below(3) {
    0 => {
      let n = s.idx(3);
      gen_path(s, n).text()
    }
    1 => {
      let mut t = gen_path(s, 0).text();
      let at = s.idx(t.len() + 1);
      t.insert(at, *s.choose(&['x', '/', '\'', '9']));
      t
    }
    _ => s.text(20)
  }
}

fn phrase_of(s: &mut Src) -> (usize, String) {
  let words = 3 * s.range(3, 8) as usize;
  let (l, _, mut t) = gen_phrase(s, words);
  if s.chance(1, 4) {
    let k = s.idx(words);
    let mut v: Vec<&str> = t.split(' ').collect();
    let other = rb::words(l)[s.idx(2048)].to_string();
    v[k] = if s.bool() { &other } else { "zzz" };
    t = v.join(" ");
  }
  (l, t)
}

fn cheap(s: &mut Src, seeds: &[Vec<u8>], msgs: &[Vec<u8>]) -> Step {
  let n = s.idx(3);
  match s.below(8) {
    0 => Step::Pub(n, gen_path(s, n)),
    1 => Step::Sign(n, gen_path(s, n), s.choose(msgs).clone()),
    2 => {
      let sig = s.bytes_n(64);
      Step::Verify(n, gen_path(s, n), s.choose(msgs).clone(), sig)
    }
    3 => Step::Direct(n, s.choose(seeds).clone(), gen_path(s, n)),
    4 => {
      let (l, t) = phrase_of(s);
      Step::Read(l, t)
    }
    5 => Step::Text(gen_text(s)),
    6 => Step::Make(s.below(3) as u8, s.u32_any(), s.below(3) as u32, s.u32_any()),
    _ => Step::C(c_call(s, &seeds[0]))
  }
}

/// what the threads of a case do, and the stored wallets they read
type Case = (Vec<(Vec<u8>, String)>, Vec<Vec<Step>>);

#[derive(Clone, Copy, PartialEq)]
enum Kind {
  Bursts,
  Wallets,
  Cold
}

/// `made`: the stored wallets, where they have been encrypted before
fn generate(s: &mut Src, kind: Kind, made: &[Vec<u8>]) -> Case {
  let heavy = kind == Kind::Wallets;
  let seeds: Vec<Vec<u8>> = (0..2).map(|_| s.rand_n(64)).collect();
  let msgs: Vec<Vec<u8>> = (0..2).map(|_| s.bytes(300)).collect();
  // stored wallets every thread may read: same bytes, in several threads at once
  let mut shared = Vec::new();
  for k in 0..2usize {
    let seed = &seeds[k];
    let mut rec = Plain { version: 2, seed: Some(seed.clone()), ..Default::default() };
    for i in 0..3 {
      if k == 0 || s.bool() {
        rec.keys.insert(COINS[i], ref_key_data(i, seed));
      }
    }
    let pass = if k == 0 { "p".to_string() } else { gen_pass(s) };
    let plain = write_plain(&rec);
    let (salt, nonce) = (s.rand_n(32), s.rand_n(12));
    let blob = made.get(k).cloned().unwrap_or_else(|| crate::refimpl::aead::envelope_seal(&plain, &pass, &salt, &nonce));
    shared.push((blob, pass));
  }
  let threads = s.range(2, if heavy { 4 } else { 6 }) as usize;
  let mut plans: Vec<Vec<Step>> = Vec::new();
  // all begin with the same, or each with its own
  let mut first = Vec::new();
  if kind == Kind::Cold && s.chance(2, 3) {
    for _ in 0..s.range(1, 3) {
      first.push(cheap(s, &seeds, &msgs));
    }
  }
  for _ in 0..threads {
    let mut v = first.clone();
    if kind == Kind::Cold {
      for _ in 0..s.range(1, 6) {
        v.push(match s.below(12) {
          0 | 1 => Step::Manager(s.range(1, 7) as u32, s.below(5) as u8),
          2 => Step::FromSeed(s.choose(&seeds).clone(), gen_pass(s)),
          3 => Step::Open(!s.chance(1, 4)),
          4 => Step::Generate(s.idx(8)),
          5 => Step::Crash,
          6 => Step::Add(*s.choose(&[COINS[0], COINS[1], COINS[2], 4242])),
          _ => cheap(s, &seeds, &msgs)
        });
      }
    } else if heavy {
      for _ in 0..s.range(2, 7) {
        v.push(match s.below(14) {
          0 => Step::Manager(s.range(1, 7) as u32, s.below(5) as u8),
          1 => Step::FromSeed(s.choose(&seeds).clone(), gen_pass(s)),
          2 => {
            let (l, t) = phrase_of(s);
            Step::FromPhrase(l, t, gen_pass(s))
          }
          3 => Step::Take(s.idx(2)),
          4 | 5 | 6 => Step::Open(!s.chance(1, 4)),
          7 => Step::Change(gen_pass(s), !s.chance(1, 4)),
          8 => Step::Add(*s.choose(&[COINS[0], COINS[1], COINS[2], 4242])),
          9 => Step::Keys(!s.chance(1, 4)),
          10 => Step::Phrase,
          11 => Step::Generate(s.idx(8)),
          12 => {
            let (l, t) = phrase_of(s);
            Step::Seed(l, t, s.bytes(20))
          }
          _ => {
            if s.bool() {
              Step::Crash
            } else {
              Step::C(Call::Open(0, vec![], vec![]))
            }
          }
        });
        for _ in 0..s.below(4) {
          v.push(cheap(s, &seeds, &msgs));
        }
      }
    } else {
      if s.chance(1, 2) {
        v.push(Step::Open(true));
      }
      v.push(Step::C(Call::New));
      for _ in 0..s.range(10, 40) {
        v.push(cheap(s, &seeds, &msgs));
        // the same again at once
        if s.chance(1, 3) {
          let x = v[v.len() - 1].clone();
          v.push(x);
        }
      }
    }
    plans.push(v);
  }
  (shared, plans)
}

fn show(cx: &mut Cx, plans: &[Vec<Step>]) {
  cx.nt();
  cx.label(["2", "3", "4", "5", "6"][plans.len() - 2]);
  for (i, p) in plans.iter().enumerate() {
    cx.note(|| format!("thread {}: {:?}", i, p));
  }
}

/// the plans, at once
fn together(plans: &Arc<Vec<Vec<Step>>>, shared: &Arc<Vec<(Vec<u8>, String)>>) -> Vec<std::thread::Result<Vec<String>>> {
  // spin, so that all leave within a fraction of a microsecond
  let bar = Arc::new(std::sync::atomic::AtomicUsize::new(0));
  let n = plans.len();
  let hs: Vec<_> = (0..n)
    .map(|i| {
      let (bar, plans, shared) = (bar.clone(), plans.clone(), shared.clone());
      std::thread::spawn(move || {
        bar.fetch_add(1, Ordering::SeqCst);
        let mut k = 0u32;
        while bar.load(Ordering::SeqCst) < n {
          k += 1;
          if k % 2000 == 0 {
            std::thread::yield_now();
          }
        }
        play(&plans[i], &shared, i as u64)
      })
    })
    .collect();
  hs.into_iter().map(|h| h.join()).collect()
}

fn compare(alone: &[Vec<String>], got: &[Vec<String>], plans: &[Vec<Step>]) -> Result<(), String> {
  for (i, g) in got.iter().enumerate() {
    check!(g.len() == alone[i].len(), "thread {}: {} results, alone {}", i, g.len(), alone[i].len());
    for (k, (a, b)) in alone[i].iter().zip(g.iter()).enumerate() {
      if a.starts_with(FRESH) {
        continue;
      }
      check!(!b.starts_with("PROTOCOL"), "thread {} step {} ({:?}): {}", i, k, plans[i].get(k), b);
      check!(
        a == b,
        "thread {} step {} ({:?}): alone\n    {}\n  with {} other threads\n    {}",
        i,
        k,
        plans[i].get(k),
        a,
        plans.len() - 1,
        b
      );
    }
  }
  distinct(got)
}

fn go(s: &mut Src, cx: &mut Cx, kind: Kind) -> Result<(), String> {
  let (shared, plans) = generate(s, kind, &[]);
  show(cx, &plans);
  let alone: Vec<Vec<String>> = plans.iter().enumerate().map(|(i, p)| play(p, &shared, i as u64)).collect();
  let shared = Arc::new(shared);
  let plans = Arc::new(plans);
  let rounds = if kind == Kind::Wallets { 1 } else { 3 };
  for _ in 0..rounds {
    let mut all = Vec::new();
    for (i, g) in together(&plans, &shared).into_iter().enumerate() {
      match g {
        Ok(g) => all.push(g),
        Err(_) => bail!("thread {} ended by a panic", i)
      }
    }
    compare(&alone, &all, &plans)?;
  }
  // and what the threads left behind disturbs nobody
  let again: Vec<Vec<String>> = plans.iter().enumerate().map(|(i, p)| if i == 0 { play(p, &shared, i as u64) } else { vec![] }).collect();
  let (now, then) = (&again[0][..again[0].len() - 1], &alone[0][..alone[0].len() - 1]);
  check!(now == then, "after the threads, thread 0's steps alone give {:?} instead of {:?}", now, then);
  Ok(())
}

/// the plans of the tape on standard input, in this new process: one of them alone, or all at once
pub fn cold_main(which: &str) -> i32 {
  let mut t = String::new();
  let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
  let mut t = t.lines();
  let made: Vec<Vec<u8>> = t.next().unwrap_or("").split(' ').map(unhex).collect();
  let mut s = Src::replaying(t.next().unwrap_or("").split(' ').filter_map(|v| v.parse().ok()).collect());
  crate::osrand::reset();
  let (shared, plans) = generate(&mut s, Kind::Cold, &made);
  let show = |v: &[String]| println!("{}", v.iter().map(|x| format!("x{}", hex(x.as_bytes()))).collect::<Vec<_>>().join(" "));
  if let Ok(i) = which.parse::<usize>() {
    show(&play(&plans[i], &shared, i as u64));
  } else {
    for g in together(&Arc::new(plans), &Arc::new(shared)) {
      match g {
        Ok(g) => show(&g),
        Err(_) => println!("panic")
      }
    }
  }
  0
}

fn child(tape: &str, which: &str) -> Result<Vec<Vec<String>>, String> {
  use std::process::{Command, Stdio};
  let exe = std::env::current_exe().expect("own path");
  let mut c = Command::new(exe)
    .args(["cold", which])
    .stdin(Stdio::piped())
    .stdout(Stdio::piped())
    .stderr(Stdio::null())
    .spawn()
    .unwrap_or_else(|e| panic!("HARNESS: no child process: {}", e));
  let mut to = c.stdin.take().expect("stdin");
  let _ = std::io::Write::write_all(&mut to, tape.as_bytes());
  drop(to);
  let o = c.wait_with_output().unwrap_or_else(|e| panic!("HARNESS: child: {}", e));
  check!(o.status.success(), "a process that starts with these threads ({}) ends by {}", which, o.status);
  let t = String::from_utf8_lossy(&o.stdout).to_string();
  check!(!t.contains("panic"), "a thread ends by a panic");
  Ok(
    t.lines()
      .map(|l| l.split(' ').map(|x| String::from_utf8_lossy(&unhex(x.get(1..).unwrap_or(""))).to_string()).collect())
      .collect()
  )
}

/// everything for the first time: in a process of its own, the plans at once, against each alone in a process of its own
fn cold(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let (shared, plans) = generate(s, Kind::Cold, &[]);
  show(cx, &plans);
  let made = shared.iter().map(|b| hex(&b.0)).collect::<Vec<_>>().join(" ");
  let tape = s.tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ");
  let tape = format!("{}\n{}\n", made, tape);
  let mut alone = Vec::new();
  for i in 0..plans.len() {
    alone.push(child(&tape, &i.to_string())?.pop().unwrap_or_default());
    if alone[i].len() != plans[i].len() + 2 {
      panic!("HARNESS: {} results for {} steps", alone[i].len(), plans[i].len());
    }
  }
  for _ in 0..3 {
    let got = child(&tape, "all")?;
    check!(got.len() == plans.len(), "results of {} threads", got.len());
    compare(&alone, &got, &plans)?;
  }
  Ok(())
}

/// few short operations over and over, by threads that do nothing else
fn hammer(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let seeds: Vec<Vec<u8>> = (0..3).map(|_| s.rand_n(64)).collect();
  let msgs: Vec<Vec<u8>> = (0..2).map(|_| s.bytes(40)).collect();
  let threads = s.range(3, 6) as usize;
  // mostly the same kind of operation everywhere, with other arguments
  let n = s.idx(3);
  let kind = s.below(8);
  let mut plans = Vec::new();
  for _ in 0..threads {
    let mut v = Vec::new();
    for _ in 0..s.range(1, 2) {
      v.push(match kind {
        0 | 1 => Step::Pub(n, gen_path(s, n)),
        2 => Step::Direct(n, s.choose(&seeds).clone(), gen_path(s, n)),
        3 => Step::Text(gen_text(s)),
        4 => {
          let (l, t) = phrase_of(s);
          Step::Read(l, t)
        }
        5 => Step::C(Call::Path(gen_text(s).replace('\0', "").into_bytes())),
        6 => Step::Verify(n, gen_path(s, n), s.choose(&msgs).clone(), s.bytes(70)),
        _ => match cheap(s, &seeds, &msgs) {
          // handles pile up
          Step::C(Call::New) => Step::C(Call::Has(0, COINS[n])),
          x => x
        }
      });
    }
    plans.push(v);
  }
  show(cx, &plans);
  // one wallet per thread, without the cost of opening
  let wallet = |i: usize| -> Option<Keychain> {
    let seed = &seeds[i % seeds.len()];
    let keys: Vec<Box<dyn Key>> = (0..3).filter_map(|n| factory(n).key_from_data(&ref_key_data(n, seed)).ok()).collect();
    Some(Keychain::new(keys))
  };
  let once = |plan: &[Step], kc: &mut Option<Keychain>, m: &mut Option<KeychainManager>, w: &mut World, fresh: &mut Vec<String>| -> Vec<String> {
    let mut cur = (vec![], String::new());
    plan.iter().map(|st| step(st, &[], m, &mut cur, kc, w, fresh)).collect()
  };
  let begin = |w: &mut World| {
    let _ = w.call(&Call::New);
  };
  let alone: Vec<Vec<String>> = (0..threads)
    .map(|i| {
      let mut w = World::default();
      begin(&mut w);
      let r = once(&plans[i], &mut wallet(i), &mut None, &mut w, &mut Vec::new());
      let _ = w.delete_everything();
      r
    })
    .collect();
  let stop = std::sync::atomic::AtomicBool::new(false);
  let millis = 350;
  let bad: Vec<Option<String>> = std::thread::scope(|sc| {
    let hs: Vec<_> = (0..threads)
      .map(|i| {
        let (stop, plans, alone, wallet, once, begin) = (&stop, &plans, &alone, &wallet, &once, &begin);
        sc.spawn(move || {
          crate::osrand::reseed(i as u64);
          let start = std::time::Instant::now();
          let mut w = World::default();
          begin(&mut w);
          let mut kc = wallet(i);
          let mut fresh = Vec::new();
          let mut r = None;
          let mut rounds = 0u32;
          while r.is_none() && start.elapsed().as_millis() < millis && !stop.load(Ordering::Relaxed) {
            rounds += 1;
            for (k, st) in plans[i].iter().enumerate() {
              // twice in a row
              for _ in 0..2 {
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                  once(std::slice::from_ref(st), &mut kc, &mut None, &mut w, &mut fresh).pop().unwrap_or_default()
                }));
                let got = match got {
                  Ok(g) => g,
                  Err(_) => format!("panic {}", take_panic().unwrap_or_default())
                };
                if got != alone[i][k] {
                  r = Some(format!(
                    "thread {} ({:?}), alone\n    {}\n  with {} other threads\n    {}",
                    i,
                    st,
                    alone[i][k],
                    threads - 1,
                    got
                  ));
                }
              }
            }
            if rounds % 16 == 0 {
              // results of the C calls
              let _ = w.delete_everything();
              w = World::default();
              begin(&mut w);
            }
          }
          if r.is_some() {
            stop.store(true, Ordering::Relaxed);
          }
          let _ = w.delete_everything();
          r
        })
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("a thread ended by a panic".into()))).collect()
  });
  if let Some(m) = bad.into_iter().flatten().next() {
    bail!("{}", m);
  }
  Ok(())
}

fn wallets(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  go(s, cx, Kind::Wallets)
}
fn bursts(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  go(s, cx, Kind::Bursts)
}

pub fn prop() -> Prop {
  Prop {
    id: "C20",
    subs: vec![
      Sub {
        name: "bursts",
        rule: "2..6 threads, started together, of 10..40 short operations (keys, signatures, phrases, paths, C calls) three times over, against each thread's results when it ran alone",
        quick: 260,
        thorough: 60_000,
        enumerate: None,
        f: bursts
      },
      Sub {
        name: "wallets",
        rule: "2..4 threads of whole wallet operations with failing and panicking plug-ins and wrong passwords, over stored wallets that several threads read, against each thread's results when it ran alone",
        quick: 70,
        thorough: 15_000,
        enumerate: None,
        f: wallets
      },
      Sub {
        name: "hammer",
        rule: "3..6 threads, each doing one or two short operations of the same kind over and over for a third of a second, against the results alone",
        quick: 240,
        thorough: 20_000,
        enumerate: None,
        f: hammer
      },
      Sub {
        name: "cold",
        rule: "2..6 threads started together in a fresh process, so that everything is used for the first time by all at once, against each thread alone in a fresh process",
        quick: 120,
        thorough: 20_000,
        enumerate: None,
        f: cold
      }
    ]
  }
}
