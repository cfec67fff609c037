use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use keychain::{GenericKeyPath, KeyPath, Keychain};

/// the same path through every kind of path object that can express it
pub fn forms(p: &P) -> Vec<(&'static str, Box<dyn KeyPath>)> {
  use keychain::networks::{bitcoin, cardano, ethereum};
  let [pu, co, ac, ch, ad] = p.0;
  let mut v: Vec<(&'static str, Box<dyn KeyPath>)> = vec![("custom path object", Box::new(*p))];
  if let Ok(g) = GenericKeyPath::from(&p.text()) {
    v.push(("parsed path", Box::new(g)));
  }
  if ac >= HARD && ad < HARD && ch < 2 {
    let a = ac - HARD;
    if co == COINS[0] || co == COINS[0] + 1 {
      let t = co != COINS[0];
      let r = if pu == P44 {
        bitcoin::KeyPath::bip44(t, a, ch, ad).ok()
      } else if pu == HARD + 49 {
        bitcoin::KeyPath::bip49(t, a, ch, ad).ok()
      } else if pu == HARD + 84 {
        bitcoin::KeyPath::bip84(t, a, ch, ad).ok()
      } else {
        None
      };
      if let Some(k) = r {
        v.push(("bitcoin path", Box::new(k)));
      }
    }
    if pu == P44 && co == COINS[1] && ch == 0 {
      if ad == 0 {
        if let Ok(k) = ethereum::KeyPath::new(a) {
          v.push(("ethereum path", Box::new(k)));
        }
      }
      if a == 0 {
        if let Ok(k) = ethereum::KeyPath::new_metamask(ad) {
          v.push(("metamask path", Box::new(k)));
        }
      }
    }
    if pu == P44 && co == COINS[2] {
      if let Ok(k) = cardano::KeyPath::new(a, ch, ad) {
        v.push(("cardano path", Box::new(k)));
      }
    }
  }
  v
}

fn simple_path(s: &mut Src, n: usize) -> P {
  let mut p = gen_path(s, n);
  if s.chance(1, 3) {
    p.0[3] = 0;
    if s.bool() {
      p.0[4] = 0;
    } else {
      p.0[2] = HARD;
    }
  }
  p
}

fn direct(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let n = s.idx(3);
  let seed = gen_seed(s);
  cx.nt();
  cx.label(NET_NAMES[n]);
  cx.note(|| format!("{} seed {}", NET_NAMES[n], hex(&seed)));
  let data = factory(n).key_data_from_seed(&seed).map_err(|e| format!("seed refused: {}", e))?;
  let want = ref_key_data(n, &seed);
  check!(data == want, "key data {} instead of {}", hex(&data), hex(&want));
  let key = factory(n).key_from_data(&data).map_err(|e| format!("own key data refused: {}", e))?;
  check!(key.network() == net(n), "key of network {}", key.network());
  let kc = Keychain::new(vec![key]);
  for _ in 0..s.range(1, 3) {
    let p = simple_path(s, n);
    cx.note(|| format!("path {}", p.text()));
    let w = ref_pub(n, &seed, &p);
    for (what, f) in forms(&p) {
      let g = kc.pub_key(&net(n), f.as_ref()).map_err(|e| format!("{} {} refused: {}", what, p.text(), e))?;
      check!(g == w, "public key at {} ({}): {} instead of {}", p.text(), what, hex(&g), hex(&w));
    }
  }
  Ok(())
}

fn wallet(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mask = 1 + s.below(7) as u32;
  let m = manager(mask)?;
  let mut pass = gen_pass(s);
  let form = s.below(4);
  let all = manager(7)?;
  let (mut blob, seed) = match form {
    0 | 1 => {
      let words = mask_words(mask);
      let (l, _, text) = gen_phrase(s, words);
      cx.note(|| format!("wallet from {} phrase {:?}", rb::NAMES[l], text));
      let b = m.keychain_data_from_mnemonic(&text, &pass, Some(LANGS[l])).map_err(|e| format!("phrase refused: {}", e))?;
      (b, rb::seed(&text, b""))
    }
    2 => {
      let seed = gen_seed(s);
      cx.note(|| format!("wallet from seed {}", hex(&seed)));
      (m.keychain_data_from_seed(&seed, &pass).map_err(|e| format!("seed refused: {}", e))?, seed)
    }
    _ => {
      let seed = gen_seed(s);
      let mut p = Plain { version: s.range(1, 2), ..Default::default() };
      for n in mask_nets(mask) {
        p.keys.insert(COINS[n], ref_key_data(n, &seed));
      }
      cx.note(|| format!("independently written version {} wallet of seed {}", p.version, hex(&seed)));
      if p.version == 2 && s.bool() {
        p.seed = Some(seed.clone());
      }
      (write_blob(s, &write_plain(&p), &pass), seed)
    }
  };
  cx.nt();
  let mut have = mask;
  for round in 0..s.range(1, 3) {
    if round > 0 {
      if s.bool() {
        let np = gen_pass(s);
        blob = all.change_password(&blob, &pass, &np).map_err(|e| format!("password change: {}", e))?;
        pass = np;
        cx.label("password changed");
      } else if form == 2 {
        if let Some(n) = (0..3).find(|n| have >> n & 1 == 0) {
          blob = all.add_network(&blob, &pass, net(n)).map_err(|e| format!("adding {}: {}", NET_NAMES[n], e))?;
          have |= 1 << n;
          cx.label("network added");
        }
      }
    }
    let open_mask = if s.bool() { 7 } else { 1 + s.below(7) as u32 };
    let kc = manager(open_mask)?.keychain_from_data(&blob, &pass).map_err(|e| format!("own wallet does not open: {}", e))?;
    for n in mask_nets(have & open_mask) {
      let p = simple_path(s, n);
      let w = ref_pub(n, &seed, &p);
      for _ in 0..2 {
        let g = kc.pub_key(&net(n), &p).map_err(|e| format!("{} refused: {}", p.text(), e))?;
        check!(g == w, "{} public key at {}: {} instead of {}", NET_NAMES[n], p.text(), hex(&g), hex(&w));
        // another call in between must not matter
        let q = simple_path(s, n);
        let _ = kc.pub_key(&net(n), &q);
        let _ = kc.sign(&net(n), b"x", &q);
      }
    }
  }
  Ok(())
}

/// a path a careless cache or table could take for the given one
pub fn near_path(s: &mut Src, n: usize, p: &P) -> P {
  let mut q = *p;
  match s.below(10) {
    0 => q.0[2] ^= 1 << s.below(31),
    1 => q.0[3] ^= 1,
    2 => q.0[4] ^= 1 << s.below(31),
    3 => q.0[4] = q.0[4].wrapping_add(1 << s.below(31)) & !HARD,
    4 => {
      q.0[2] = HARD + p.0[4];
      q.0[4] = p.0[2] - HARD;
    }
    5 => {
      // a step carried from one part to the next
      q.0[2] = HARD | q.0[2].wrapping_add(1);
      q.0[4] = q.0[4].wrapping_sub(1 << s.below(31)) & !HARD;
    }
    6 => {
      q.0[3] ^= 1;
      q.0[4] ^= 1 << s.below(31);
    }
    7 => {
      q.0[2] ^= 1 << s.below(31);
      q.0[4] ^= 1 << s.below(31);
    }
    8 if n == 0 => q.0[0] = *s.choose(&[P44, HARD + 49, HARD + 84, 44, p.0[0] ^ HARD, p.0[0] ^ 1]),
    8 => {
      q.0[2] = HARD;
      q.0[4] = p.0[4] ^ (p.0[2] - HARD);
    }
    _ => return *p
  }
  q
}

/// many calls on the same keys: what was asked before does not matter
fn history(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let seed = gen_seed(s);
  let seed2 = if s.bool() { gen_seed(s) } else { seed.clone() };
  let mut list = Vec::new();
  for n in 0..3 {
    list.push(factory(n).key_from_data(&ref_key_data(n, &seed)).map_err(|e| format!("key data refused: {}", e))?);
  }
  let mut other = Vec::new();
  for n in 0..3 {
    other.push(factory(n).key_from_data(&ref_key_data(n, &seed2)).map_err(|e| format!("key data refused: {}", e))?);
  }
  let seeds = [&seed, &seed2];
  let kcs = [Keychain::new(list), Keychain::new(other)];
  let mut asked: Vec<(usize, P)> = Vec::new();
  let mut known: std::collections::HashMap<(usize, usize, [u32; 5]), Vec<u8>> = Default::default();
  let only = if s.bool() { Some(s.idx(3)) } else { None };
  cx.note(|| format!("seeds {} and {}", hex(&seed), hex(&seed2)));
  let steps = s.range(3, 40);
  for _ in 0..steps {
    let k = s.weighted(&[3, 1]);
    let (n, p) = if !asked.is_empty() && s.chance(4, 5) {
      let (n, q) = asked[s.idx(asked.len())];
      (n, near_path(s, n, &q))
    } else {
      let n = only.unwrap_or_else(|| s.idx(3));
      (n, simple_path(s, n))
    };
    let kc = &kcs[k];
    match s.below(8) {
      0 => {
        cx.note(|| format!("{}: {} signs at {}", k, NET_NAMES[n], p.text()));
        kc.sign(&net(n), b"x", &p).map_err(|e| format!("signing at {}: {}", p.text(), e))?;
      }
      1 => {
        let mut q = p;
        let i = s.range(2, 4) as usize;
        q.0[i] ^= HARD;
        cx.note(|| format!("{}: {} is asked for {}, which is no path", k, NET_NAMES[n], q.text()));
        check!(kc.pub_key(&net(n), &q).is_err(), "a public key for {}", q.text());
      }
      _ => {
        cx.note(|| format!("{}: {} public key at {}", k, NET_NAMES[n], p.text()));
        let g = kc.pub_key(&net(n), &p).map_err(|e| format!("{} refused: {}", p.text(), e))?;
        let w = known.entry((k, n, p.0)).or_insert_with(|| ref_pub(n, seeds[k], &p));
        check!(g == *w, "{} public key at {}: {} instead of {}", NET_NAMES[n], p.text(), hex(&g), hex(w));
        asked.push((n, p));
      }
    }
  }
  if known.len() > 2 {
    cx.nt();
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C07",
    subs: vec![
      Sub {
        name: "direct",
        rule: "a network, a 64-byte seed and one to three accepted paths, each through every path type, against reference BIP-32 or BIP32-Ed25519 from the seed",
        quick: 11_000,
        thorough: 1_000_000,
        enumerate: None,
        f: direct
      },
      Sub {
        name: "history",
        rule: "3 to 40 calls on the same two sets of keys, at paths that mostly differ little from one another (a bit, a power of two, swapped or carried parts); non-trivial: at least three different public keys were compared with the reference",
        quick: 2_000,
        thorough: 100_000,
        enumerate: None,
        f: history
      },
      Sub {
        name: "wallet",
        rule: "a wallet (any networks, from phrase, seed or an independent writer, any password), re-encrypted or extended, opened by another manager; public keys against the reference",
        quick: 300,
        thorough: 80_000,
        enumerate: None,
        f: wallet
      }
    ]
  }
}
