//! Ownership across the C interface: every block the library hands out is released once, as it was allocated; no call
//! ends the process.
use super::c15::{cheap_call, wallet_call, written};
use crate::alloc;
use crate::capi::*;
use crate::common::*;
use crate::engine::*;
use std::sync::Once;

static WARM: Once = Once::new();

/// what the library, the standard library and this thread allocate once for good is allocated before recording
fn warm() {
  WARM.call_once(|| {
    let pass = b"w".to_vec();
    let mut w = World::default();
    let _ = w.call(&Call::New);
    let seed = vec![7u8; 64];
    let mut blob = match w.call(&Call::FromSeed(0, seed, pass.clone())) {
      Ok(Ok(Val::Data(b))) => b,
      _ => return
    };
    for n in COINS.iter() {
      if let Ok(Ok(Val::Data(b))) = w.call(&Call::Add(0, blob.clone(), pass.clone(), *n)) {
        blob = b;
      }
    }
    for l in 0..8 {
      if let Ok(Ok(Val::Text(t))) = w.call(&Call::Gen(0, l)) {
        let _ = w.call(&Call::FromPhrase(0, t.into_bytes(), pass.clone(), l));
      }
    }
    let _ = w.call(&Call::Open(0, blob.clone(), pass.clone()));
    let _ = w.call(&Call::Keys(0, blob.clone(), pass.clone()));
    let _ = w.call(&Call::Phrase(0, blob.clone(), pass.clone()));
    let _ = w.call(&Call::Change(0, blob, pass.clone(), pass.clone()));
    for n in 0..3 {
      let p = [P44, COINS[n], HARD, 0, 0];
      let _ = w.call(&Call::Pub(0, COINS[n], p));
      if let Ok(Ok(Val::Data(g))) = w.call(&Call::Sign(0, COINS[n], vec![1], p)) {
        let _ = w.call(&Call::Verify(0, COINS[n], vec![1], g, p));
      }
    }
    let _ = w.call(&Call::Nets(0));
    let _ = w.call(&Call::Path(b"m/1/2/3/4/5".to_vec()));
    // a panic, and an error
    let _ = w.call(&Call::Path(vec![0xff]));
    let _ = w.call(&Call::Path(b"m".to_vec()));
    for i in (0..w.owned.len()).rev() {
      let _ = w.delete(i);
    }
    let _ = w.delete_manager(0);
    let _ = w.delete_keychain(0);
    let _ = w.call(&Call::Has(0, 1));
    let _ = w.call(&Call::Nets(0));
    for i in (0..w.owned.len()).rev() {
      let _ = w.delete(i);
    }
  });
}

fn judge() -> Result<usize, String> {
  let r = alloc::report();
  let d = r.detail;
  check!(r.double == 0, "{} block(s) released twice (size {}, alignment {})", r.double, d.0, d.1);
  check!(
    r.layout == 0,
    "{} block(s) released with another layout than allocated: allocated as {} bytes aligned to {}, released as {} bytes aligned to {}",
    r.layout, d.0, d.1, d.2, d.3
  );
  check!(r.live.is_empty(), "{} block(s) never released although everything was deleted: (size, alignment) {:?}", r.live.len(), &r.live[..r.live.len().min(8)]);
  Ok(r.blocks)
}

fn deletions(s: &mut Src, cx: &mut Cx, w: &mut World) -> Result<(), String> {
  match s.weighted(&[6, 3, 2, 1, 1]) {
    0 => (),
    1 => {
      if !w.owned.is_empty() {
        let i = s.idx(w.owned.len());
        w.delete(i)?;
      }
    }
    2 => {
      if !w.deleted.is_empty() {
        let i = s.idx(w.deleted.len());
        w.delete_again(i);
        cx.label("deleted twice");
      }
    }
    3 => {
      let k = s.below(8);
      cx.note(|| format!("delete nothing, kind {}", k));
      w.delete_nothing(k);
      cx.label("empty deleted");
    }
    _ => {
      // handles, possibly again
      if s.bool() && w.managers.len() > 1 {
        let i = s.range(1, w.managers.len() as u64 - 1) as usize;
        w.delete_manager(i)?;
      } else if !w.keychains.is_empty() {
        let i = s.idx(w.keychains.len());
        w.delete_keychain(i)?;
      }
    }
  }
  Ok(())
}

fn finish(s: &mut Src, cx: &mut Cx, w: &mut World) -> Result<(), String> {
  for i in 0..w.owned.len() {
    w.intact(i)?;
  }
  w.delete_all(s)?;
  // everything is gone: deleting it all again does nothing
  if s.bool() {
    for i in (0..w.deleted.len()).rev() {
      w.delete_again(i);
    }
    for i in 0..w.managers.len() {
      w.delete_manager(i)?;
    }
    for i in 0..w.keychains.len() {
      w.delete_keychain(i)?;
    }
  }
  if judge()? > 0 {
    cx.nt();
  }
  Ok(())
}

fn light(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  warm();
  let mut w = World { null_empty: s.bool(), ..Default::default() };
  alloc::begin();
  let _ = w.call(&Call::New)?;
  for _ in 0..s.range(1, 12) {
    let c = if s.chance(1, 8) { Call::New } else { cheap_call(s, &w) };
    cx.note(|| format!("{:?}", c));
    match w.call(&c)? {
      Ok(_) => cx.label("success"),
      Err((-1, _)) => cx.label("panic reported"),
      Err(_) => cx.label("error")
    }
    deletions(s, cx, &mut w)?;
  }
  finish(s, cx, &mut w)
}

fn wallets(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  warm();
  let quiet = s.chance(1, 8);
  if quiet {
    init_library();
  }
  let r = wallets_(s, cx);
  if quiet {
    cx.label("library initialised");
    hook();
  }
  r
}

fn wallets_(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut w = World { null_empty: s.bool(), ..Default::default() };
  let mut have = vec![gen_wallet(s), gen_wallet(s)];
  alloc::begin();
  let _ = w.call(&Call::New)?;
  for _ in 0..s.range(1, 5) {
    let c = if s.chance(1, 4) { cheap_call(s, &w) } else { wallet_call(s, &w, &have) };
    cx.note(|| format!("{:?}", c));
    let got = w.call(&c)?;
    match &got {
      Ok(_) => cx.label("success"),
      Err((-1, _)) => cx.label("panic reported"),
      Err(_) => cx.label("error")
    }
    if let Some(x) = written(&c, &got) {
      have.push(x);
    }
    deletions(s, cx, &mut w)?;
  }
  finish(s, cx, &mut w)
}

/// signing and key calls over one opened wallet, which is the part with many objects per call
fn keys(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  warm();
  let mut w = World { null_empty: s.bool(), ..Default::default() };
  let wallet = gen_wallet(s);
  alloc::begin();
  let _ = w.call(&Call::New)?;
  let open = Call::Open(0, wallet.blob.clone(), wallet.pass.clone());
  let _ = w.call(&open)?;
  for _ in 0..s.range(1, 20) {
    let c = cheap_call(s, &w);
    cx.note(|| format!("{:?}", c));
    let got = w.call(&c)?;
    if let (Call::Sign(k, n, d, p), Ok(Val::Data(g))) = (&c, &got) {
      let _ = w.call(&Call::Verify(*k, *n, d.clone(), g.clone(), *p))?;
      cx.label("signed");
    }
    deletions(s, cx, &mut w)?;
  }
  finish(s, cx, &mut w)
}

pub fn prop() -> Prop {
  Prop {
    id: "C16",
    subs: vec![
      Sub { name: "light", rule: "the library allocated memory for the caller", quick: 60_000, thorough: 2_000_000, enumerate: None, f: light },
      Sub { name: "keys", rule: "the library allocated memory for the caller", quick: 1_500, thorough: 60_000, enumerate: None, f: keys },
      Sub { name: "wallets", rule: "the library allocated memory for the caller", quick: 1_000, thorough: 40_000, enumerate: None, f: wallets },
    ]
  }
}
