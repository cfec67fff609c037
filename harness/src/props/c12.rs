//! Model-based histories over encrypted wallets.
use super::plug::*;
use crate::common::*;
use crate::engine::*;
use crate::refimpl::{aead, bip39 as rb};
use keychain::{Error, KeyFactory, Keychain, KeychainManager, Network};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// identifiers of our own networks
pub const PLUGS: [u32; 4] = [7, 0x8000_0001, 0xffff_ffff, 0];

/// networks a manager of a history supports, and the phrase size it works with
#[derive(Clone, Debug)]
pub struct Cfg {
  pub mask: u32,
  pub plugs: Vec<(u32, usize)>
}

impl Cfg {
  pub fn gen(s: &mut Src) -> Cfg {
    let mut plugs = Vec::new();
    if s.chance(1, 3) {
      for _ in 0..s.range(1, 2) {
        let id = *s.choose(&PLUGS);
        if !plugs.iter().any(|(i, _)| *i == id) {
          plugs.push((id, *s.choose(&[96usize, 128, 128, 160, 256])));
        }
      }
    }
    let mask = if plugs.is_empty() { s.range(1, 7) as u32 } else { s.below(8) as u32 };
    Cfg { mask, plugs }
  }
  pub fn nets(&self) -> Vec<u32> {
    let mut v: Vec<u32> = mask_nets(self.mask).into_iter().map(|n| COINS[n]).collect();
    v.extend(self.plugs.iter().map(|p| p.0));
    v.sort();
    v
  }
  pub fn has(&self, n: u32) -> bool {
    self.nets().contains(&n)
  }
  pub fn bits(&self) -> usize {
    let b = if self.mask & 3 != 0 {
      128
    } else if self.mask & 4 != 0 {
      96
    } else {
      0
    };
    self.plugs.iter().map(|p| p.1).max().unwrap_or(0).max(b)
  }
  pub fn words(&self) -> usize {
    self.bits() / 32 * 3
  }
  pub fn make(&self, s: &mut Src) -> Result<KeychainManager, String> {
    if self.plugs.is_empty() && s.bool() {
      return manager(self.mask);
    }
    let mut f: Vec<Box<dyn KeyFactory>> = mask_nets(self.mask).into_iter().map(factory).collect();
    for (id, min) in &self.plugs {
      let p = Plug::new(*id, *min, 512, Rc::new(RefCell::new(Vec::new())));
      let at = s.idx(f.len() + 1);
      f.insert(at, p.boxed());
    }
    KeychainManager::with_factories(f).map_err(|e| format!("manager {:?} refused: {}", self, e))
  }
}

pub fn built_in(id: u32) -> Option<usize> {
  COINS.iter().position(|c| *c == id)
}

/// key data of a network for a seed
pub fn model_data(id: u32, seed: &[u8]) -> Vec<u8> {
  match built_in(id) {
    Some(n) => ref_key_data(n, seed),
    None => Plug::new(id, 0, 0, Rc::new(RefCell::new(Vec::new()))).data(seed)
  }
}

pub fn model_path(s: &mut Src, id: u32) -> P {
  match built_in(id) {
    Some(n) => gen_path(s, n),
    None => {
      let mut p = P([0; 5]);
      for k in 0..5 {
        p.0[k] = s.u32_any();
      }
      if p.0[0] == 666 {
        p.0[0] = 667;
      }
      p
    }
  }
}

pub fn model_pub(id: u32, data: &[u8], p: &P) -> Vec<u8> {
  match built_in(id) {
    Some(n) => ref_pub_stored(n, data, p),
    None => plug_pub(data, p)
  }
}

struct Version {
  blob: Vec<u8>,
  pass: String,
  rec: Plain
}

fn same_record(a: &Plain, b: &Plain) -> bool {
  a.seed == b.seed && a.mnemonic == b.mnemonic && a.lang == b.lang && a.keys == b.keys
}

fn describe(p: &Plain) -> String {
  format!(
    "seed {:?} phrase {:?} language {:?} keys {:?}",
    p.seed.as_ref().map(|x| hex(x)),
    p.mnemonic,
    p.lang,
    p.keys.iter().map(|(k, v)| format!("{}:{}", k, show(v))).collect::<Vec<_>>()
  )
}

/// a freshly written blob has the expected content, under this password
fn written(blob: &[u8], pass: &str, want: &Plain) -> Result<(), String> {
  let got = read_blob(blob, pass)?;
  check!(same_record(&got, want), "the stored wallet holds\n    {}\n  instead of\n    {}", describe(&got), describe(want));
  Ok(())
}

/// the opened wallet offers exactly these keys
fn offers(s: &mut Src, kc: &Keychain, want: &BTreeMap<u32, Vec<u8>>) -> Result<(), String> {
  let nets: Vec<u32> = want.keys().cloned().collect();
  check!(sorted_nets(kc) == nets, "the opened wallet offers networks {:?} instead of {:?}", sorted_nets(kc), nets);
  for id in COINS.iter().chain(PLUGS.iter()) {
    check!(kc.has_network(&Network(*id)) == want.contains_key(id), "has_network({}) is wrong", id);
    let p = model_path(s, *id);
    match (kc.pub_key(&Network(*id), &p), want.get(id)) {
      (Ok(k), Some(d)) => {
        check!(k == model_pub(*id, d, &p), "network {} path {}: public key {}", id, p.text(), show(&k));
      }
      (Err(Error::KeyDoesNotExist(n)), None) => check!(n.0 == *id, "KeyDoesNotExist names {} for {}", n.0, id),
      (Ok(_), None) => bail!("a key of the absent network {}", id),
      (Err(e), _) => bail!("network {} path {}: {}", id, p.text(), e)
    }
  }
  Ok(())
}

fn wrong_pass(s: &mut Src, right: &str, wallets: &[Vec<Version>]) -> String {
  for _ in 0..4 {
    let q = match s.below(9) {
      5 | 6 => {
        // of another wallet or an earlier version
        let w = &wallets[s.idx(wallets.len())];
        w[s.idx(w.len())].pass.clone()
      }
      7 | 8 => respell(s, right),
      0 => format!("{} ", right),
      1 => {
        let n = right.chars().count();
        right.chars().take(n.saturating_sub(1)).collect()
      }
      2 => right.to_uppercase(),
      3 => String::new(),
      _ => gen_pass(s)
    };
    if !same_password(&q, right) {
      return q;
    }
  }
  format!("{}x", right)
}

fn is(e: &Error, allowed: &[&'static str]) -> bool {
  allowed.contains(&err_kind(e))
}

fn history(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  run(s, cx, 10)
}

fn run(s: &mut Src, cx: &mut Cx, steps: u64) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let mut wallets: Vec<Vec<Version>> = Vec::new();
  let mut open: Vec<(Keychain, BTreeMap<u32, Vec<u8>>)> = Vec::new();
  let n = s.range(2, steps);
  // managers live on from step to step, and mostly the last one is used again
  let mut pool: Vec<(Cfg, KeychainManager)> = Vec::new();
  let (mut last_m, mut last_w) = (0, None);
  for step in 0..n {
    let how = if pool.is_empty() { 2 } else { s.weighted(&[3, 1, 3]) };
    last_m = match how {
      0 => last_m,
      1 => s.idx(pool.len()),
      _ => {
        let cfg = Cfg::gen(s);
        let m = cfg.make(s)?;
        pool.push((cfg, m));
        pool.len() - 1
      }
    };
    let (cfg, m) = (pool[last_m].0.clone(), &pool[last_m].1);
    let op = if wallets.is_empty() { s.weighted(&[3, 4, 1]) } else { s.weighted(&[1, 2, 1, 5, 4, 7, 2, 2, 1]) };
    // which stored wallet, and mostly its newest version
    let (w, v) = if wallets.is_empty() {
      (0, 0)
    } else if last_w.is_some() && s.chance(1, 3) {
      last_w.unwrap()
    } else {
      let w = s.idx(wallets.len());
      let l = wallets[w].len();
      (w, if s.chance(1, 5) { s.idx(l) } else { l - 1 })
    };
    if !wallets.is_empty() {
      last_w = Some((w, v));
    }
    macro_rules! cur {
      () => {
        &wallets[w][v]
      };
    }
    let wrong = op >= 3 && s.chance(1, 5);
    let pass = if wallets.is_empty() {
      String::new()
    } else if wrong {
      wrong_pass(s, &cur!().pass, &wallets)
    } else {
      cur!().pass.clone()
    };
    if op >= 3 {
      cx.nt();
    }
    match op {
      // create from a seed
      0 => {
        let len = if s.chance(3, 4) { 64 } else { s.len(130) };
        let seed = s.bytes_n(len);
        let np = gen_pass(s);
        cx.note(|| format!("{}: manager {:?} creates wallet {} from seed {} with password {:?}", step, cfg, wallets.len(), hex(&seed), np));
        match guard("creating from a seed", || m.keychain_data_from_seed(&seed, &np))? {
          Ok(blob) => {
            check!(len == 64, "a seed of {} bytes is accepted", len);
            let keys = cfg.nets().iter().map(|id| (*id, model_data(*id, &seed))).collect();
            let rec = Plain { version: 2, seed: Some(seed), keys, ..Default::default() };
            written(&blob, &np, &rec)?;
            wallets.push(vec![Version { blob, pass: np, rec }]);
            cx.label("created from seed");
          }
          Err(Error::InvalidSeedSize(k)) => {
            check!(len != 64 && k == len, "InvalidSeedSize({}) for a seed of {} bytes", k, len);
            cx.label("seed of wrong length");
          }
          Err(e) => bail!("a seed of {} bytes: {}", len, e)
        }
      }
      // create from a phrase
      1 => {
        let bad = s.weighted(&[9, 1, 1, 1]);
        let words = if bad == 1 { 3 * s.range(3, 8) as usize } else { cfg.words() };
        let e = s.bytes_n(words / 3 * 4);
        let mut lang = s.idx(8);
        let mut text = rb::phrase(lang, &rb::encode(&e));
        if bad == 2 {
          text = text.replacen(' ', " zzz", 1);
        }
        if bad == 3 {
          lang = s.idx(8);
        }
        let arg = if lang == 0 && s.bool() { None } else { Some(LANGS[lang]) };
        let np = gen_pass(s);
        cx.note(|| format!("{}: manager {:?} creates wallet {} from phrase {:?} ({:?}) with password {:?}", step, cfg, wallets.len(), text, arg, np));
        let ok = words == cfg.words() && rb::parse(lang, &text).is_ok();
        match guard("creating from a phrase", || m.keychain_data_from_mnemonic(&text, &np, arg))? {
          Ok(blob) => {
            check!(ok, "an unsuitable phrase of {} words is accepted by a manager for {} words", words, cfg.words());
            let seed = rb::seed(&text, b"");
            let keys = cfg.nets().iter().map(|id| (*id, model_data(*id, &seed))).collect();
            let rec = Plain { version: 2, mnemonic: Some(text), lang: Some(lang), keys, ..Default::default() };
            written(&blob, &np, &rec)?;
            wallets.push(vec![Version { blob, pass: np, rec }]);
            cx.label("created from phrase");
          }
          Err(Error::MnemonicError(e)) => {
            check!(!ok, "phrase {:?} is refused: {}", text, e);
            cx.label("unsuitable phrase");
          }
          Err(e) => bail!("phrase {:?}: {}", text, e)
        }
      }
      // a wallet written elsewhere, version 1 or 2, with any networks
      2 => {
        let np = gen_pass(s);
        let seed = s.rand_n(64);
        let version = s.range(1, 2);
        let mut rec = Plain { version, ..Default::default() };
        for id in COINS.iter().chain(PLUGS.iter()) {
          if s.bool() {
            rec.keys.insert(*id, model_data(*id, &seed));
          }
        }
        if version == 2 && s.chance(2, 3) {
          rec.seed = Some(seed);
        }
        let plain = write_plain(&rec);
        let blob = write_blob(s, &plain, &np);
        cx.note(|| format!("{}: wallet {} written elsewhere: version {} {} with password {:?}", step, wallets.len(), version, describe(&rec), np));
        wallets.push(vec![Version { blob, pass: np, rec }]);
        cx.label("written elsewhere");
      }
      // open
      3 => {
        cx.note(|| format!("{}: manager {:?} opens wallet {}.{} with {:?}", step, cfg, w, v, pass));
        match guard("opening", || m.keychain_from_data(&cur!().blob, &pass))? {
          Ok(kc) => {
            check!(!wrong, "a wrong password opens the wallet");
            let want: BTreeMap<u32, Vec<u8>> =
              cur!().rec.keys.iter().filter(|(k, _)| cfg.has(**k)).map(|(k, d)| (*k, d.clone())).collect();
            offers(s, &kc, &want)?;
            open.push((kc, want));
            cx.label("opened");
          }
          Err(e) => {
            check!(wrong && is(&e, &["WrongPassword"]), "opening ({} password): {}", if wrong { "wrong" } else { "right" }, e);
            cx.label("wrong password");
          }
        }
      }
      // change the password
      4 => {
        let np = match s.weighted(&[5, 1, 1, 1, 1]) {
          0 => gen_pass(s),
          1 => cur!().pass.clone(),
          2 => pass.clone(),
          3 => respell(s, &pass),
          _ => {
            let x = &wallets[s.idx(wallets.len())];
            x[s.idx(x.len())].pass.clone()
          }
        };
        cx.note(|| format!("{}: manager {:?} changes the password of wallet {}.{} from {:?} to {:?}", step, cfg, w, v, pass, np));
        match guard("changing the password", || m.change_password(&cur!().blob, &pass, &np))? {
          Ok(blob) => {
            check!(!wrong, "the password is changed with a wrong password");
            written(&blob, &np, &cur!().rec)?;
            if !same_password(&np, &cur!().pass) && s.chance(1, 3) {
              check!(aead::envelope_open(&blob, &cur!().pass).is_none(), "the old password still opens the wallet");
            }
            let rec = cur!().rec.clone();
            wallets[w].push(Version { blob, pass: np, rec });
            cx.label("password changed");
          }
          Err(e) => check!(wrong && is(&e, &["WrongPassword"]), "changing the password ({}): {}", if wrong { "wrong" } else { "right" }, e)
        }
      }
      // add a network
      5 => {
        let mut pool: Vec<u32> = COINS.iter().chain(PLUGS.iter()).cloned().collect();
        if s.chance(3, 4) {
          // prefer one that can be added
          let q: Vec<u32> = cfg.nets().into_iter().filter(|n| !cur!().rec.keys.contains_key(n)).collect();
          if !q.is_empty() {
            pool = q;
          }
        }
        let id = *s.choose(&pool);
        cx.note(|| format!("{}: manager {:?} adds network {} to wallet {}.{} with {:?}", step, cfg, id, w, v, pass));
        let rec = &cur!().rec;
        let mut why: Vec<&'static str> = Vec::new();
        if !cfg.has(id) {
          why.push("NetworkIsNotSupported");
        }
        if wrong {
          why.push("WrongPassword");
        } else {
          if rec.keys.contains_key(&id) {
            why.push("KeyAlreadyExist");
          }
          match (&rec.seed, &rec.mnemonic) {
            (Some(_), _) => {}
            (None, Some(t)) => {
              if t.split(' ').count() != cfg.words() {
                why.push("MnemonicError");
              }
            }
            (None, None) => why.push("SeedIsNotSaved")
          }
        }
        match guard("adding a network", || m.add_network(&cur!().blob, &pass, Network(id)))? {
          Ok(blob) => {
            check!(why.is_empty(), "network {} is added in spite of {:?}", id, why);
            let mut rec = rec.clone();
            let seed = match (&rec.seed, &rec.mnemonic) {
              (Some(x), _) => x.clone(),
              (_, Some(t)) => rb::seed(t, b""),
              _ => unreachable!()
            };
            rec.keys.insert(id, model_data(id, &seed));
            written(&blob, &pass, &rec)?;
            wallets[w].push(Version { blob, pass, rec });
            cx.label("network added");
          }
          Err(e) => {
            check!(is(&e, &why), "adding network {}: {} instead of {:?}", id, e, why);
            match e {
              Error::NetworkIsNotSupported(n) | Error::KeyAlreadyExist(n) => check!(n.0 == id, "the error names network {} for {}", n.0, id),
              _ => {}
            }
            cx.label("network not added");
          }
        }
      }
      // backup of the keys
      6 => {
        cx.note(|| format!("{}: manager {:?} backs up the keys of wallet {}.{} with {:?}", step, cfg, w, v, pass));
        match guard("reading the keys", || m.get_keys_data(&cur!().blob, &pass))? {
          Ok(k) => {
            check!(!wrong, "the keys are given for a wrong password");
            let mut k: Vec<(u32, Vec<u8>)> = k.into_iter().map(|(n, d)| (n.0, d)).collect();
            k.sort();
            let want: Vec<(u32, Vec<u8>)> = cur!().rec.keys.clone().into_iter().collect();
            check!(k == want, "backup gives keys {:?}", k.iter().map(|(n, d)| format!("{}:{}", n, show(d))).collect::<Vec<_>>());
            cx.label("keys backed up");
          }
          Err(e) => check!(wrong && is(&e, &["WrongPassword"]), "reading the keys: {}", e)
        }
      }
      // backup of the phrase
      7 => {
        cx.note(|| format!("{}: manager {:?} asks for the phrase of wallet {}.{} with {:?}", step, cfg, w, v, pass));
        let rec = &cur!().rec;
        match guard("reading the phrase", || m.retrieve_mnemonic(&cur!().blob, &pass))? {
          Ok((t, l)) => {
            check!(!wrong, "the phrase is given for a wrong password");
            check!(rec.mnemonic.as_ref() == Some(&t), "phrase {:?} instead of {:?}", t, rec.mnemonic);
            check!(rec.lang.map(|x| LANGS[x]) == Some(l), "language {:?} instead of {:?}", l, rec.lang);
            cx.label("phrase backed up");
          }
          Err(e) => {
            let why: &[&'static str] = if wrong {
              &["WrongPassword"]
            } else if rec.mnemonic.is_none() {
              &["SeedIsNotSaved"]
            } else {
              &[]
            };
            check!(is(&e, why), "reading the phrase: {} instead of {:?}", e, why);
          }
        }
      }
      // a damaged copy is refused everywhere
      _ => {
        let mut b = cur!().blob.clone();
        let k = s.idx(b.len());
        if s.bool() {
          b.truncate(k)
        } else {
          b[k] ^= 1 << s.below(8)
        }
        let pass = &cur!().pass;
        cx.note(|| format!("{}: manager {:?} is given a copy of wallet {}.{} damaged at {}", step, cfg, w, v, k));
        let want = if b.len() < 60 { "NotEnoughData" } else { "WrongPassword" };
        let r = match s.below(4) {
          0 => guard("opening", || m.keychain_from_data(&b, pass).map(|_| ()))?,
          1 => guard("changing the password", || m.change_password(&b, pass, "x").map(|_| ()))?,
          2 => guard("reading the keys", || m.get_keys_data(&b, pass).map(|_| ()))?,
          _ => guard("reading the phrase", || m.retrieve_mnemonic(&b, pass).map(|_| ()))?
        };
        match r {
          Ok(()) => bail!("a damaged wallet is accepted"),
          Err(e) => check!(err_kind(&e) == want, "a damaged wallet of {} bytes gives {}", b.len(), e)
        }
        cx.label("damaged copy");
      }
    }
    // whatever just happened to it, this stored wallet is closed to another password
    if op >= 3 && s.chance(1, 4) {
      let x = &wallets[w][v];
      let q = wrong_pass(s, &x.pass, &wallets);
      let k = s.below(5);
      cx.note(|| format!("{}: the same manager is asked about wallet {}.{} with {:?}", step, w, v, q));
      let r = match k {
        0 => guard("opening", || m.keychain_from_data(&x.blob, &q).map(|_| ()))?,
        1 => guard("changing the password", || m.change_password(&x.blob, &q, if s.bool() { &q } else { &x.pass }).map(|_| ()))?,
        2 => guard("reading the keys", || m.get_keys_data(&x.blob, &q).map(|_| ()))?,
        3 => guard("reading the phrase", || m.retrieve_mnemonic(&x.blob, &q).map(|_| ()))?,
        _ => {
          let id = *s.choose(&COINS);
          match guard("adding a network", || m.add_network(&x.blob, &q, Network(id)).map(|_| ()))? {
            Err(Error::NetworkIsNotSupported(_)) if !cfg.has(id) => Err(Error::WrongPassword),
            r => r
          }
        }
      };
      match r {
        Ok(()) => bail!("a wrong password is accepted for a wallet used before"),
        Err(e) => check!(is(&e, &["WrongPassword"]), "a wrong password gives {}", e)
      }
      cx.label("wrong password afterwards");
    }
  }
  // wallets opened earlier still answer as they did, and one stored wallet of each still opens
  for (kc, want) in &open {
    offers(s, kc, want)?;
  }
  if let Some(w) = wallets.last() {
    let x = &w[s.idx(w.len())];
    let all: BTreeMap<u32, Vec<u8>> = x.rec.keys.iter().filter(|(k, _)| built_in(**k).is_some()).map(|(k, d)| (*k, d.clone())).collect();
    let kc = manager(7)?.keychain_from_data(&x.blob, &x.pass).map_err(|e| format!("at the end a stored wallet does not open: {}", e))?;
    offers(s, &kc, &all)?;
  }
  Ok(())
}

/// a wallet that walks from one network to all of them through differently equipped managers
fn growth(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let words = if s.chance(1, 5) { 9 } else { 12 };
  let from_seed = s.bool();
  let (lang, _, text) = gen_phrase(s, words);
  let seed = if from_seed { gen_seed(s) } else { rb::seed(&text, b"") };
  let mut order: Vec<u32> = COINS.iter().chain(PLUGS.iter()).cloned().collect();
  for i in (1..order.len()).rev() {
    let j = s.idx(i + 1);
    order.swap(i, j);
  }
  let mut pass = gen_pass(s);
  let mut rec = Plain { version: 2, ..Default::default() };
  let mut blob = Vec::new();
  cx.nt();
  cx.label(if from_seed { "from a seed" } else { "from a phrase" });
  cx.note(|| format!("{} networks in order {:?}, seed {}", if from_seed { "seed" } else { "phrase" }, order, hex(&seed)));
  let count = s.range(2, 6) as usize;
  for (k, id) in order.iter().take(count).enumerate() {
    // a manager that has this network and possibly others, with the right phrase size
    let mut cfg = Cfg { mask: 0, plugs: vec![] };
    match built_in(*id) {
      Some(n) => cfg.mask = 1 << n,
      None => cfg.plugs.push((*id, words / 3 * 32))
    }
    if !from_seed {
      if words == 12 && cfg.mask & 3 == 0 && cfg.plugs.is_empty() {
        cfg.mask |= 1 + s.below(2) as u32;
      }
      if words == 9 && cfg.mask & 3 != 0 {
        continue;
      }
    }
    if k == 0 || blob.is_empty() {
      let m = cfg.make(s)?;
      let r = if from_seed {
        rec.seed = Some(seed.clone());
        m.keychain_data_from_seed(&seed, &pass)
      } else {
        rec.mnemonic = Some(text.clone());
        rec.lang = Some(lang);
        m.keychain_data_from_mnemonic(&text, &pass, Some(LANGS[lang]))
      };
      blob = r.map_err(|e| format!("creating: {}", e))?;
      for n in cfg.nets() {
        rec.keys.insert(n, model_data(n, &seed));
      }
      written(&blob, &pass, &rec)?;
    } else if !rec.keys.contains_key(id) {
      let m = cfg.make(s)?;
      blob = m.add_network(&blob, &pass, Network(*id)).map_err(|e| format!("adding network {}: {}", id, e))?;
      rec.keys.insert(*id, model_data(*id, &seed));
      written(&blob, &pass, &rec)?;
    }
    if s.chance(1, 3) {
      let np = gen_pass(s);
      let c = Cfg::gen(s);
      blob = c.make(s)?.change_password(&blob, &pass, &np).map_err(|e| format!("changing the password: {}", e))?;
      pass = np;
    }
  }
  if blob.is_empty() {
    return Ok(());
  }
  let cfg = Cfg { mask: 7, plugs: PLUGS.iter().map(|p| (*p, 128)).collect() };
  let kc = cfg.make(s)?.keychain_from_data(&blob, &pass).map_err(|e| format!("opening: {}", e))?;
  offers(s, &kc, &rec.keys)
}

pub fn prop() -> Prop {
  Prop {
    id: "C12",
    subs: vec![
      Sub {
        name: "history",
        rule: "2..10 operations (create from seed or phrase, foreign wallet, open, change password, add network, back up keys or phrase, damaged copy) by managers of any built-in and custom networks that live on over several wallets and their earlier versions, judged step by step against a model; non-trivial when an existing wallet is used",
        quick: 700,
        thorough: 60_000,
        enumerate: None,
        f: history
      },
      Sub {
        name: "growth",
        rule: "one wallet grown network by network through managers that know few of its networks, with password changes in between",
        quick: 180,
        thorough: 20_000,
        enumerate: None,
        f: growth
      }
    ]
  }
}
