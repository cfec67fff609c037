//! Phrase size negotiation, network selection and plug-in networks.
use super::c12::{built_in, model_data, PLUGS};
use super::plug::*;
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use keychain::{Error, KeyFactory, KeychainManager, Network, SeedSize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

fn log() -> Log {
  Rc::new(RefCell::new(Vec::new()))
}

const SIZES: [usize; 6] = [96, 128, 160, 192, 224, 256];

/// (network, min, max); built-in networks with their own ranges
fn gen_range(s: &mut Src) -> (usize, usize) {
  let min = if s.chance(1, 8) { 0 } else { *s.choose(&SIZES) };
  let max = match s.weighted(&[4, 2, 1, 1, 1]) {
    0 => *s.choose(&SIZES),
    1 => min,
    2 => usize::MAX,
    3 => min + s.len(600),
    _ => 512
  };
  (min, max)
}

fn sizes(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = if s.chance(1, 50) { s.range(7, 400) as usize } else { s.weighted(&[1, 3, 5, 5, 3, 2, 1]) };
  // many networks only ever agree when most of them take everything
  let wide = n > 6 && s.bool();
  let mut list: Vec<(u32, usize, usize)> = Vec::new();
  for _ in 0..n {
    if s.chance(1, 3) {
      let k = s.idx(3);
      let (lo, hi) = [(128, 256), (128, 256), (96, 256)][k];
      if !list.iter().any(|x| x.0 == COINS[k]) {
        list.push((COINS[k], lo, hi));
      }
    } else {
      let id = s.u32_any();
      let (lo, hi) = if wide && s.chance(49, 50) { (96, 256) } else { gen_range(s) };
      if !list.iter().any(|x| x.0 == id) && built_in(id).is_none() {
        list.push((id, lo, hi));
      }
    }
  }
  let lo = list.iter().map(|x| x.1).max().unwrap_or(0);
  let hi = list.iter().map(|x| x.2).min().unwrap_or(0);
  if lo == 0 && !list.is_empty() {
    // no network asks for anything: outside the statement
    return Ok(());
  }
  let ok = !list.is_empty() && lo <= hi;
  cx.note(|| format!("networks {:?}", list));
  cx.label(if ok { "agree" } else if list.is_empty() { "none" } else { "disagree" });
  if list.len() > 1 {
    cx.nt();
  }
  let mut order: Vec<usize> = (0..list.len()).collect();
  for round in 0..2 {
    if round == 1 {
      order.reverse();
    }
    let f: Vec<Box<dyn KeyFactory>> = order
      .iter()
      .map(|i| {
        let x = list[*i];
        match built_in(x.0) {
          Some(n) => factory(n),
          None => Plug::new(x.0, x.1, x.2, log()).boxed() as Box<dyn KeyFactory>
        }
      })
      .collect();
    match guard("making a manager", || KeychainManager::with_factories(f))? {
      Ok(m) => {
        check!(ok, "a manager for networks {:?}, whose sizes do not agree", list);
        for x in &list {
          check!(m.has_network(&Network(x.0)), "network {} is missing", x.0);
          let f = m.get_key_factory(&Network(x.0)).ok_or(format!("no factory for network {}", x.0))?;
          check!(f.network() == Network(x.0), "the factory for {} is of {}", x.0, f.network());
          check!(f.seed_size().min == x.1 && f.seed_size().max == x.2, "factory of {} has sizes {:?}", x.0, f.seed_size());
        }
        for _ in 0..3 {
          let o = s.u32_any();
          let has = list.iter().any(|x| x.0 == o);
          check!(m.has_network(&Network(o)) == has, "has_network({}) is {}", o, !has);
          check!(m.get_key_factory(&Network(o)).is_some() == has, "factory of {}", o);
        }
        let l = s.idx(8);
        let t = m.generate_mnemonic(Some(LANGS[l])).map_err(|e| format!("networks {:?}: generating: {}", list, e))?;
        let w = t.split(if l == 2 { '\u{3000}' } else { ' ' }).flat_map(|x| x.split(' ')).count();
        check!(w == lo / 32 * 3, "phrases of {} words for sizes {}..{}", w, lo, hi);
        // phrases of the other sizes are not taken
        for b in SIZES.iter().filter(|b| **b != lo) {
          if s.chance(1, 3) {
            let e = s.rand_n(b / 8);
            let t = rb::phrase(l, &rb::encode(&e));
            match guard("making a wallet", || m.keychain_data_from_mnemonic(&t, "", Some(LANGS[l])))? {
              Ok(_) => bail!("a phrase of {} bits is taken by a manager for {}", b, lo),
              Err(Error::MnemonicError(_)) => {}
              Err(e) => bail!("a phrase of {} bits: {}", b, e)
            }
          }
        }
        if round == 0 && s.chance(1, 300) {
          let e = s.rand_n(lo / 8);
          let t = rb::phrase(l, &rb::encode(&e));
          m.keychain_data_from_mnemonic(&t, "", Some(LANGS[l])).map_err(|e| format!("a phrase of the manager's own size {}: {}", lo, e))?;
          cx.label("own size taken");
        }
      }
      Err(Error::CantCalculateSeedSize(_, _)) => check!(!ok, "networks {:?} are refused although {} bits suit all", list, lo),
      Err(e) => bail!("networks {:?}: {}", list, e)
    }
  }
  for x in &list {
    if x.2 <= 1 << 20 {
      let z = SeedSize { min: x.1, max: x.2 };
      check!(z.min_words() == x.1 / 32 * 3 && z.max_words() == x.2 / 32 * 3, "{:?} is {}..{} words", z, z.min_words(), z.max_words());
    }
  }
  Ok(())
}

fn selection(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.below(6);
  let mut list: Vec<u32> = Vec::new();
  for _ in 0..n {
    list.push(if s.chance(2, 3) {
      COINS[s.idx(3)]
    } else {
      match s.below(3) {
        0 => COINS[s.idx(3)] ^ HARD,
        1 => COINS[s.idx(3)].wrapping_add(1),
        _ => s.u32_any()
      }
    });
  }
  let mask = (0..3).filter(|k| list.contains(&COINS[*k])).fold(0u32, |m, k| m | 1 << k);
  let dflt = s.chance(1, 30);
  let mask = if dflt { 7 } else { mask };
  cx.note(|| format!("selected {:?}", list));
  if mask != 0 {
    cx.nt();
  }
  let nets: Vec<Network> = list.iter().map(|x| Network(*x)).collect();
  let r = guard("making a manager", || if dflt { KeychainManager::new() } else { KeychainManager::with_networks(&nets) })?;
  match r {
    Ok(m) => {
      check!(mask != 0, "a manager without networks");
      for k in 0..3 {
        check!(m.has_network(&net(k)) == (mask >> k & 1 == 1), "{} is {}", NET_NAMES[k], m.has_network(&net(k)));
        check!(m.get_key_factory(&net(k)).is_some() == (mask >> k & 1 == 1), "factory of {}", NET_NAMES[k]);
      }
      for x in &list {
        check!(m.has_network(&Network(*x)) == COINS.contains(x), "has_network({})", x);
      }
      let t = m.generate_mnemonic(None).map_err(|e| format!("generating: {}", e))?;
      check!(t.split(' ').count() == mask_words(mask), "{} words for {:?}", t.split(' ').count(), mask_nets(mask));
    }
    Err(Error::CantCalculateSeedSize(_, _)) => check!(mask == 0, "refused although {:?} exist", mask_nets(mask)),
    Err(e) => bail!("{}", e)
  }
  let mut all: Vec<u32> = Network::all().into_iter().map(|n| n.0).collect();
  all.sort();
  let mut want = COINS.to_vec();
  want.sort();
  check!(all == want, "Network::all() is {:?}", all);
  check!(Network::BITCOIN == net(0) && Network::ETHEREUM == net(1) && Network::CARDANO == net(2), "network numbers");
  Ok(())
}

struct Set {
  plugs: Vec<Plug>,
  mask: u32
}
impl Set {
  fn manager(&self) -> Result<KeychainManager, String> {
    let mut f: Vec<Box<dyn KeyFactory>> = mask_nets(self.mask).into_iter().map(factory).collect();
    f.extend(self.plugs.iter().map(|p| p.clone().boxed() as Box<dyn KeyFactory>));
    KeychainManager::with_factories(f).map_err(|e| format!("manager refused: {}", e))
  }
  fn forget(&self) {
    for p in &self.plugs {
      p.seeds.borrow_mut().clear();
      p.datas.borrow_mut().clear();
    }
  }
}

/// a wallet over custom networks, with failures at any call
fn plug_calls(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  crate::osrand::reseed(s.u64());
  let mut set = Set { plugs: vec![], mask: s.below(8) as u32 };
  for _ in 0..s.range(1, 3) {
    let id = *s.choose(&PLUGS);
    if set.plugs.iter().any(|p| p.net == id) {
      continue;
    }
    let mut p = Plug::new(id, 128, 256, log());
    p.tag = s.rand_n(3);
    p.data_len = *s.choose(&[70usize, 71, 72, 200, 0, 1, 96, 77, 3000]);
    set.plugs.push(p);
  }
  let pass = s.text(8);
  let from_seed = s.bool();
  let (l, _, text) = gen_phrase(s, 12);
  let seed = if from_seed { gen_seed(s) } else { rb::seed(&text, b"") };
  cx.nt();
  cx.note(|| {
    format!(
      "networks {:?} and custom {:?}; wallet from {}",
      mask_nets(set.mask),
      set.plugs.iter().map(|p| (p.net, p.data_len)).collect::<Vec<_>>(),
      if from_seed { hex(&seed) } else { text.clone() }
    )
  });
  let make = |m: &KeychainManager| {
    if from_seed {
      m.keychain_data_from_seed(&seed, &pass)
    } else {
      m.keychain_data_from_mnemonic(&text, &pass, Some(LANGS[l]))
    }
  };
  // a factory that fails when the wallet is made
  let bad = s.chance(1, 3).then(|| s.idx(set.plugs.len()));
  if let Some(b) = bad {
    set.plugs[b].fail_make = true;
    let m = set.manager()?;
    cx.label("factory fails");
    match guard("making a wallet", || make(&m))? {
      Ok(_) => bail!("a wallet is made although network {} cannot make its key", set.plugs[b].net),
      Err(Error::KeyError(n, e)) => {
        check!(n.0 == set.plugs[b].net, "the error names {} instead of {}", n, set.plugs[b].net);
        check!(has_number(&format!("{}", e), 888001), "the factory's error is lost: {}", e);
      }
      Err(e) => bail!("making a wallet: {}", e)
    }
    set.plugs[b].fail_make = false;
  }
  set.forget();
  let m = set.manager()?;
  let blob = guard("making a wallet", || make(&m))?.map_err(|e| format!("making a wallet: {}", e))?;
  let mut keys: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
  for n in mask_nets(set.mask) {
    keys.insert(COINS[n], model_data(COINS[n], &seed));
  }
  for p in &set.plugs {
    let g = p.seeds.borrow();
    check!(!g.is_empty(), "network {} was not asked for its key", p.net);
    check!(g.iter().all(|x| x == &seed), "network {} was given seed {:?} instead of {}", p.net, g.iter().map(|x| hex(x)).collect::<Vec<_>>(), hex(&seed));
    check!(p.datas.borrow().is_empty(), "network {} was given key data while the wallet was made", p.net);
    keys.insert(p.net, p.data(&seed));
  }
  let got = read_blob(&blob, &pass)?;
  check!(got.keys == keys, "the stored keys are {:?}", got.keys.iter().map(|(k, v)| format!("{}:{}", k, show(v))).collect::<Vec<_>>());
  set.forget();
  // opening, with a failing network or not
  let bad = s.chance(1, 3).then(|| s.idx(set.plugs.len()));
  if let Some(b) = bad {
    set.plugs[b].fail_load = true;
    cx.label("loading fails");
    let m = set.manager()?;
    match guard("opening", || m.keychain_from_data(&blob, &pass))? {
      Ok(_) => bail!("the wallet opens although network {} cannot load its key", set.plugs[b].net),
      Err(Error::KeyError(n, e)) => {
        check!(n.0 == set.plugs[b].net, "the error names {} instead of {}", n, set.plugs[b].net);
        check!(has_number(&format!("{}", e), 777001), "the network's error is lost: {}", e);
      }
      Err(e) => bail!("opening: {}", e)
    }
    set.plugs[b].fail_load = false;
    set.forget();
  }
  let kc = guard("opening", || m.keychain_from_data(&blob, &pass))?.map_err(|e| format!("opening: {}", e))?;
  let mut want: Vec<u32> = keys.keys().cloned().collect();
  want.sort();
  check!(sorted_nets(&kc) == want, "networks {:?} instead of {:?}", sorted_nets(&kc), want);
  for p in &set.plugs {
    let own = p.data(&seed);
    let d = p.datas.borrow();
    check!(!d.is_empty() && d.iter().all(|x| x == &own), "network {} was given data {:?} instead of its own {}", p.net, d.iter().map(|x| show(x)).collect::<Vec<_>>(), show(&own));
    check!(p.seeds.borrow().is_empty(), "network {} was given a seed when the wallet was opened", p.net);
    let mut path = P([0; 5]);
    for k in 0..5 {
      path.0[k] = s.u32_any();
    }
    let bad = s.chance(1, 3);
    path.0[0] = if bad { 666 } else if path.0[0] == 666 { 1 } else { path.0[0] };
    let nt = Network(p.net);
    let msg = s.bytes(40);
    match kc.pub_key(&nt, &path) {
      Ok(k) => check!(!bad && k == plug_pub(&own, &path), "public key {}", show(&k)),
      Err(Error::KeyError(n, e)) => check!(bad && n.0 == p.net && has_number(&format!("{}", e), 999001), "public key: error of {}: {}", n, e),
      Err(e) => bail!("public key: {}", e)
    }
    match kc.sign(&nt, &msg, &path) {
      Ok(k) => {
        check!(!bad && k == plug_sign(&own, &msg, &path), "signature {}", show(&k));
        check!(kc.verify(&nt, &msg, &k, &path).map_err(|e| format!("{}", e))?, "the signature is refused");
        check!(!kc.verify(&nt, &msg, &[], &path).map_err(|e| format!("{}", e))?, "an empty signature is taken");
      }
      Err(Error::KeyError(n, e)) => check!(bad && n.0 == p.net && has_number(&format!("{}", e), 999003), "signing: error of {}: {}", n, e),
      Err(e) => bail!("signing: {}", e)
    }
    if bad {
      match kc.verify(&nt, &msg, &msg, &path) {
        Err(Error::KeyError(n, e)) => check!(n.0 == p.net && has_number(&format!("{}", e), 999005), "verifying: error of {}: {}", n, e),
        r => bail!("verifying with a failing network: {:?}", r.map_err(|e| format!("{}", e)))
      }
    }
  }
  // a custom network added later
  if let Some(id) = PLUGS.iter().find(|id| !keys.contains_key(id)) {
    let late = Plug::new(*id, 128, 128, log());
    let mut one = Set { plugs: vec![late], mask: 0 };
    if s.bool() {
      one.plugs[0].fail_make = true;
      cx.label("adding fails");
      let m = one.manager()?;
      match guard("adding a network", || m.add_network(&blob, &pass, Network(*id)))? {
        Err(Error::KeyError(n, e)) => check!(n.0 == *id && has_number(&format!("{}", e), 888001), "adding {}: error of {}: {}", id, n, e),
        Ok(_) => bail!("network {} is added although it cannot make its key", id),
        Err(e) => bail!("adding {}: {}", id, e)
      }
      one.plugs[0].fail_make = false;
    }
    one.forget();
    let m = one.manager()?;
    let b2 = guard("adding a network", || m.add_network(&blob, &pass, Network(*id)))?.map_err(|e| format!("adding {}: {}", id, e))?;
    check!(one.plugs[0].seeds.borrow().iter().all(|x| x == &seed) && !one.plugs[0].seeds.borrow().is_empty(), "the added network was given {:?}", one.plugs[0].seeds.borrow().iter().map(|x| hex(x)).collect::<Vec<_>>());
    check!(one.plugs[0].datas.borrow().is_empty(), "the added network was given key data");
    keys.insert(*id, one.plugs[0].data(&seed));
    check!(read_blob(&b2, &pass)?.keys == keys, "the keys after adding network {}", id);
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C17",
    subs: vec![
      Sub {
        name: "sizes",
        rule: "0..6 networks, built-in ones and custom ones with minima among the phrase sizes and any maxima, in two orders; non-trivial with at least two networks",
        quick: 25_000,
        thorough: 3_000_000,
        enumerate: None,
        f: sizes
      },
      Sub {
        name: "selection",
        rule: "lists of 0..5 network numbers, known, unknown, near-miss and repeated; non-trivial when a known one is listed",
        quick: 40_000,
        thorough: 2_000_000,
        enumerate: None,
        f: selection
      },
      Sub {
        name: "plug_calls",
        rule: "wallets over one to three recording custom networks with failures in making, loading and using keys",
        quick: 400,
        thorough: 60_000,
        enumerate: None,
        f: plug_calls
      }
    ]
  }
}
