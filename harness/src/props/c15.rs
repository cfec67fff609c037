//! The C interface against the library: the same operation through both.
use crate::capi::*;
use crate::common::*;
use crate::engine::*;
use keychain::{Error, GenericKeyPath, KeyPath, Keychain, KeychainManager, Network};

/// what the library itself does for a call
enum Want {
  Ok(Val),
  /// bytes whose encrypted content must agree, and the password they are under
  Blob(Vec<u8>, String),
  Err(i32, String),
  /// any error result
  Refused,
  Panicked
}

fn code(e: &Error) -> i32 {
  match err_kind(e) {
    "WrongPassword" => 0,
    "NotEnoughData" => 1,
    "SeedIsNotSaved" => 2,
    "CantCalculateSeedSize" => 3,
    "DataError" => 4,
    "InvalidSeedSize" => 5,
    "KeyDoesNotExist" => 6,
    "KeyAlreadyExist" => 7,
    "NetworkIsNotSupported" => 8,
    "KeyError" => 9,
    "KeyPathError" => 10,
    _ => 11
  }
}

fn of<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Want) -> Want {
  match r {
    Ok(v) => f(v),
    Err(e) => Want::Err(code(&e), format!("{}", e))
  }
}
fn path_of<T: KeyPath, E: Into<Error>>(r: Result<T, E>) -> Want {
  of(r.map_err(|e| e.into()), |p| Want::Ok(Val::Path(P::of(&p).0)))
}

pub struct Mirror {
  managers: Vec<Option<KeychainManager>>,
  keychains: Vec<Option<Keychain>>
}

impl Mirror {
  fn new() -> Mirror {
    Mirror { managers: Vec::new(), keychains: Vec::new() }
  }
  fn run(&mut self, c: &Call) -> Want {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run_(c))) {
      Ok(Some(w)) => w,
      Ok(None) => Want::Refused,
      Err(_) => {
        take_panic();
        Want::Panicked
      }
    }
  }
  /// None: the arguments are not texts, or the handle was deleted
  fn run_(&mut self, c: &Call) -> Option<Want> {
    let s = |b: &'_ [u8]| std::str::from_utf8(b).ok().map(|s| s.to_string());
    macro_rules! man {
      ($i:expr) => {
        self.managers[*$i].as_ref()?
      };
    }
    macro_rules! kch {
      ($i:expr) => {
        self.keychains[*$i].as_ref()?
      };
    }
    Some(match c {
      Call::New => match KeychainManager::new() {
        Ok(m) => {
          self.managers.push(Some(m));
          Want::Ok(Val::Manager(self.managers.len() - 1))
        }
        Err(e) => Want::Err(code(&e), format!("{}", e))
      },
      Call::Has(m, n) => Want::Ok(Val::Bool(man!(m).has_network(&Network(*n)))),
      Call::Gen(m, l) => of(man!(m).generate_mnemonic(Some(LANGS[*l])), |t| Want::Ok(Val::Text(t))),
      Call::FromSeed(m, seed, pw) => {
        let m = man!(m);
        let pw = s(pw)?;
        of(m.keychain_data_from_seed(seed, &pw), |b| Want::Blob(b, pw))
      }
      Call::FromPhrase(m, t, pw, l) => {
        let m = man!(m);
        let (t, pw) = (s(t)?, s(pw)?);
        of(m.keychain_data_from_mnemonic(&t, &pw, Some(LANGS[*l])), |b| Want::Blob(b, pw))
      }
      Call::Open(m, d, pw) => {
        let r = man!(m).keychain_from_data(d, &s(pw)?);
        match r {
          Ok(k) => {
            self.keychains.push(Some(k));
            Want::Ok(Val::Keychain(self.keychains.len() - 1))
          }
          Err(e) => Want::Err(code(&e), format!("{}", e))
        }
      }
      Call::Add(m, d, pw, n) => {
        let m = man!(m);
        let pw = s(pw)?;
        of(m.add_network(d, &pw, Network(*n)), |b| Want::Blob(b, pw))
      }
      Call::Change(m, d, old, new) => {
        let m = man!(m);
        let (old, new) = (s(old)?, s(new)?);
        of(m.change_password(d, &old, &new), |b| Want::Blob(b, new))
      }
      Call::Keys(m, d, pw) => {
        let m = man!(m);
        let pw = s(pw)?;
        of(m.get_keys_data(d, &pw), |v| {
          let mut v: Vec<(u32, Vec<u8>)> = v.into_iter().map(|(n, d)| (n.0, d)).collect();
          v.sort();
          Want::Ok(Val::Keys(v))
        })
      }
      Call::Phrase(m, d, pw) => {
        let m = man!(m);
        let pw = s(pw)?;
        let r = m.retrieve_mnemonic(d, &pw);
        match r {
          // not a C text
          Ok((t, _)) if t.contains('\0') => Want::Refused,
          r => of(r, |(t, l)| Want::Ok(Val::Info(t, LANGS.iter().position(|x| *x == l).unwrap() as u32)))
        }
      }
      Call::Nets(k) => Want::Ok(Val::Nets(sorted_nets(kch!(k)))),
      Call::Pub(k, n, p) => of(kch!(k).pub_key(&Network(*n), &P(*p)), |d| Want::Ok(Val::Data(d))),
      Call::Sign(k, n, d, p) => of(kch!(k).sign(&Network(*n), d, &P(*p)), |d| Want::Ok(Val::Data(d))),
      Call::Verify(k, n, d, g, p) => of(kch!(k).verify(&Network(*n), d, g, &P(*p)), |r| Want::Ok(Val::Bool(r))),
      Call::Path(t) => path_of(GenericKeyPath::from(&s(t)?)),
      Call::Btc(k, t, a, c, d) => {
        use keychain::networks::bitcoin::KeyPath as B;
        path_of(match k {
          44 => B::bip44(*t, *a, *c, *d),
          49 => B::bip49(*t, *a, *c, *d),
          _ => B::bip84(*t, *a, *c, *d)
        })
      }
      Call::Ada(a, c, d) => path_of(keychain::networks::cardano::KeyPath::new(*a, *c, *d)),
      Call::Eth(a) => path_of(keychain::networks::ethereum::KeyPath::new(*a)),
      Call::Metamask(a) => path_of(keychain::networks::ethereum::KeyPath::new_metamask(*a))
    })
  }
}

fn same(c: &Call, got: Out, want: Want) -> Result<(), String> {
  match (got, want) {
    (Ok(mut g), Want::Ok(w)) => {
      match &mut g {
        Val::Nets(v) => v.sort(),
        Val::Keys(v) => v.sort(),
        _ => ()
      }
      check!(g == w, "{:?}: gives {:?}, the library gives {:?}", c, g, w);
    }
    (Ok(Val::Data(g)), Want::Blob(w, pw)) => {
      check!(g.len() == w.len(), "{:?}: gives {} bytes, the library {}", c, g.len(), w.len());
      let (g, w) = (read_blob(&g, &pw), read_blob(&w, &pw));
      check!(g == w, "{:?}: stores\n    {:?}\n  while the library stores\n    {:?}", c, g, w);
    }
    (Err((k, m)), Want::Err(k2, m2)) => {
      check!(k == k2, "{:?}: error code {} ({:?}) for the library's error {:?}", c, k, m, m2);
      if !m2.contains('\0') {
        check!(m == m2, "{:?}: error message {:?} instead of {:?}", c, m, m2);
      }
    }
    (Err(_), Want::Refused) => (),
    (Err((k, _)), Want::Panicked) => check!(k == -1, "{:?}: error code {} for a failure inside the library", c, k),
    (g, w) => {
      let w = match w {
        Want::Ok(v) => format!("success, {:?}", v),
        Want::Blob(..) => "success".to_string(),
        Want::Err(k, m) => format!("error {} {:?}", k, m),
        Want::Refused => "no success (text that is not UTF-8 or no C text, or a deleted handle)".to_string(),
        Want::Panicked => "a panic".to_string()
      };
      bail!("{:?}: gives {:?} where the library gives {}", c, g, w)
    }
  }
  Ok(())
}

/// run through both, with the operating system's random source in the same state
fn both(w: &mut World, m: &mut Mirror, c: &Call, rng: u64) -> Result<bool, String> {
  crate::osrand::reseed(rng);
  let got = w.call(c)?;
  crate::osrand::reseed(rng);
  let want = m.run(c);
  let ok = got.is_ok();
  same(c, got, want)?;
  Ok(ok)
}

pub fn cheap_call(s: &mut Src, w: &World) -> Call {
  let nk = w.keychains.len();
  let k = if nk == 0 { s.weighted(&[1, 1, 3, 3, 1, 1, 1, 1]) } else { s.weighted(&[1, 1, 2, 2, 1, 1, 1, 1, 2, 6, 5, 7]) };
  let m = |s: &mut Src| s.idx(w.managers.len());
  match k {
    0 => Call::Has(m(s), c_net(s)),
    1 => Call::Gen(m(s), s.idx(8)),
    2 => Call::Path(gen_path_text(s)),
    3 => Call::Btc(*s.choose(&[44, 49, 84]), s.bool(), s.u32_any(), s.u32_any(), s.u32_any()),
    4 => Call::Ada(s.u32_any(), s.u32_any(), s.u32_any()),
    5 => Call::Eth(s.u32_any()),
    6 => Call::Metamask(s.u32_any()),
    7 => {
      // constructors with arguments they take
      match s.below(3) {
        0 => Call::Btc(*s.choose(&[44, 49, 84]), s.bool(), HARD + gen_index(s), s.below(2) as u32, gen_index(s)),
        1 => Call::Ada(HARD + gen_index(s), s.below(2) as u32, gen_index(s)),
        _ => Call::Metamask(gen_index(s))
      }
    }
    8 => Call::Nets(s.idx(nk)),
    9 => {
      let n = c_net(s);
      Call::Pub(s.idx(nk), n, c_path(s, n))
    }
    10 => {
      let n = c_net(s);
      Call::Sign(s.idx(nk), n, s.bytes_far(100, 70_000), c_path(s, n))
    }
    _ => {
      let n = c_net(s);
      Call::Verify(s.idx(nk), n, s.bytes_far(40, 70_000), s.bytes_far(100, 70_000), c_path(s, n))
    }
  }
}

fn gen_path_text(s: &mut Src) -> Vec<u8> {
  match s.weighted(&[6, 3, 3, 1]) {
    0 => {
      let n = s.idx(3);
      gen_path(s, n).text().into_bytes()
    }
    1 => {
      let mut p = P([0; 5]);
      for i in 0..5 {
        p.0[i] = s.u32_any();
      }
      let mut t = p.text();
      if s.bool() {
        let n = s.idx(t.len() + 1);
        t.truncate(n);
        t.push_str(*s.choose(&["", "'", "/", "4294967296", "2147483648'", "/1", "x", "é", " "]));
      }
      t.into_bytes()
    }
    2 => c_text(s, 20),
    _ => {
      let mut v = c_text(s, 8);
      let i = s.idx(v.len() + 1);
      v.insert(i, *s.choose(&[0xffu8, 0x80, 0xc3]));
      v
    }
  }
}

pub fn wallet_call(s: &mut Src, w: &World, wallets: &[Wallet]) -> Call {
  let m = s.idx(w.managers.len());
  match s.weighted(&[3, 3, 5, 4, 4, 3, 3]) {
    0 => {
      let n = if s.chance(3, 4) { 64 } else { s.len(100) };
      let seed = s.bytes_n(n);
      Call::FromSeed(m, seed, c_pass(s))
    }
    1 => {
      let words = *s.choose(&[12, 12, 12, 12, 9, 15, 24]);
      let (l, _, mut t) = gen_phrase(s, words);
      if s.chance(1, 5) {
        t = t.replacen(' ', *s.choose(&["  ", "\t", " x ", "\u{3000}"]), 1);
      }
      let l = if s.chance(1, 6) { s.idx(8) } else { l };
      let mut t = t.into_bytes();
      if s.chance(1, 12) {
        t.push(0xff);
      }
      Call::FromPhrase(m, t, c_pass(s), l)
    }
    2 => {
      let (d, p) = gen_blob(s, wallets);
      Call::Open(m, d, p)
    }
    3 => {
      let (d, p) = gen_blob(s, wallets);
      Call::Add(m, d, p, c_net(s))
    }
    4 => {
      let (d, p) = gen_blob(s, wallets);
      Call::Change(m, d, p, c_pass(s))
    }
    5 => {
      let (d, p) = gen_blob(s, wallets);
      Call::Keys(m, d, p)
    }
    _ => {
      let (d, p) = gen_blob(s, wallets);
      Call::Phrase(m, d, p)
    }
  }
}

/// a wallet a call has just written
pub fn written(c: &Call, got: &Out) -> Option<Wallet> {
  let pass = match c {
    Call::FromSeed(_, _, p) | Call::FromPhrase(_, _, p, _) | Call::Add(_, _, p, _) | Call::Change(_, _, _, p) => p.clone(),
    _ => return None
  };
  match got {
    Ok(Val::Data(b)) => Some(Wallet { blob: b.clone(), pass }),
    _ => None
  }
}

fn wallets(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut w = World::default();
  let mut m = Mirror::new();
  both(&mut w, &mut m, &Call::New, 1)?;
  let mut have = vec![gen_wallet(s)];
  if s.bool() {
    have.push(gen_wallet(s));
  }
  let n = s.range(1, 4);
  for _ in 0..n {
    let c = wallet_call(s, &w, &have);
    cx.note(|| format!("{:?}", c));
    let rng = s.u64();
    crate::osrand::reseed(rng);
    let got = w.call(&c)?;
    crate::osrand::reseed(rng);
    let want = m.run(&c);
    if got.is_ok() {
      cx.nt();
      cx.label("success");
    } else {
      cx.label("error");
    }
    if let Some(x) = written(&c, &got) {
      have.push(x);
    }
    same(&c, got, want)?;
    // a keychain that both opened behaves alike
    let k = w.keychains.len();
    if k > 0 && matches!(c, Call::Open(..)) {
      for _ in 0..3 {
        let c = cheap_call(s, &w);
        both(&mut w, &mut m, &c, 2)?;
      }
    }
  }
  w.delete_all(s)
}

fn keys(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut w = World::default();
  let mut m = Mirror::new();
  check!(net_ids() == COINS, "the network constants are {:?}", net_ids());
  both(&mut w, &mut m, &Call::New, 1)?;
  if s.chance(1, 6) {
    both(&mut w, &mut m, &Call::New, 1)?;
  }
  let wallet = gen_wallet(s);
  let open = Call::Open(0, wallet.blob.clone(), wallet.pass.clone());
  both(&mut w, &mut m, &open, 3)?;
  w.null_empty = s.bool();
  let mut signed: Vec<(usize, u32, Vec<u8>, Vec<u8>, [u32; 5])> = Vec::new();
  for _ in 0..s.range(5, 30) {
    let mut c = cheap_call(s, &w);
    if let (Call::Verify(..), false) = (&c, signed.is_empty()) {
      let (k, n, d, mut g, mut p) = s.choose(&signed).clone();
      if s.chance(1, 4) {
        let i = s.idx(g.len());
        g[i] ^= 1 << s.below(8);
      }
      if s.chance(1, 8) {
        p[4] ^= 1;
      }
      c = Call::Verify(k, n, d, g, p);
    }
    cx.note(|| format!("{:?}", c));
    let rng = s.u64();
    crate::osrand::reseed(rng);
    let got = w.call(&c)?;
    crate::osrand::reseed(rng);
    let want = m.run(&c);
    if let (Call::Sign(k, n, d, p), Ok(Val::Data(g))) = (&c, &got) {
      cx.label("signed");
      signed.push((*k, *n, d.clone(), g.clone(), *p));
    }
    if let (Call::Verify(..), Ok(Val::Bool(true))) = (&c, &got) {
      cx.nt();
      cx.label("verified true");
    }
    if got.is_err() {
      cx.label("error");
    }
    same(&c, got, want)?;
    // deleted handles are refused, and the other handles keep working
    if s.chance(1, 20) && w.managers.len() > 0 {
      let i = s.idx(w.managers.len());
      w.delete_manager(i)?;
      m.managers[i] = None;
      cx.label("manager deleted");
    }
    if s.chance(1, 30) && w.keychains.len() > 0 {
      w.delete_keychain(0)?;
      m.keychains[0] = None;
      cx.label("keychain deleted");
    }
  }
  w.delete_all(s)
}

fn paths(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut w = World::default();
  let mut m = Mirror::new();
  both(&mut w, &mut m, &Call::New, 1)?;
  for _ in 0..8 {
    let c = cheap_call(s, &w);
    cx.note(|| format!("{:?}", c));
    if both(&mut w, &mut m, &c, 5)? {
      cx.nt();
    }
  }
  w.delete_all(s)
}

pub fn prop() -> Prop {
  Prop {
    id: "C15",
    subs: vec![
      Sub { name: "paths", rule: "at least one call succeeds", quick: 30_000, thorough: 1_000_000, enumerate: None, f: paths },
      Sub { name: "keys", rule: "a signature verifies through the C interface", quick: 600, thorough: 30_000, enumerate: None, f: keys },
      Sub { name: "wallets", rule: "at least one wallet call succeeds", quick: 500, thorough: 20_000, enumerate: None, f: wallets },
    ]
  }
}
