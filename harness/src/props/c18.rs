//! Erasure on drop.
use super::c01::variant;
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use bip39::{Entropy, Mnemonics, Seed};
use std::mem::MaybeUninit;

enum Slot {
  E(Box<MaybeUninit<Entropy>>),
  S(Box<MaybeUninit<Seed>>)
}

/// bytes found nowhere else, none of them zero
fn dense(s: &mut Src, n: usize) -> Vec<u8> {
  let mut v = s.rand_n(n);
  v.iter_mut().for_each(|b| {
    if *b == 0 {
      *b = 0xa5
    }
  });
  v
}

/// secrets mostly without zeros, so that an erased byte is told from a secret one, else with zeros or ones in chosen
/// places, or only few bytes that are not zero
fn secret(s: &mut Src, n: usize) -> Vec<u8> {
  let mut v = dense(s, n);
  match s.weighted(&[5, 3, 1, 1, 1, 1]) {
    0 => {}
    1 => {
      for _ in 0..s.range(1, 3) {
        let i = match s.below(4) {
          0 => 0,
          1 => n - 1,
          _ => s.idx(n)
        };
        v[i] = *s.choose(&[0u8, 0, 0xff, 1, 0x80]);
      }
    }
    2 => {
      // zero from or up to some place
      let i = s.idx(n);
      if s.bool() {
        v[..i].iter_mut().for_each(|b| *b = 0);
      } else {
        v[i + 1..].iter_mut().for_each(|b| *b = 0);
      }
    }
    3 => {
      let b = v[0];
      v = vec![b; n];
    }
    4 => v = vec![0xff; n],
    _ => {
      let i = s.idx(n);
      let b = v[i];
      v = vec![0; n];
      v[i] = b;
    }
  }
  v
}

fn raw<T>(m: &MaybeUninit<T>) -> Vec<u8> {
  let p = m as *const _ as *const u8;
  (0..std::mem::size_of::<T>()).map(|i| unsafe { p.add(i).read_volatile() }).collect()
}

fn value(x: &Slot) -> Vec<u8> {
  match x {
    Slot::E(b) => unsafe { b.assume_init_ref().as_ref().to_vec() },
    Slot::S(b) => unsafe { b.assume_init_ref().as_ref().to_vec() }
  }
}

fn erased(before: &[u8], after: &[u8], what: &str) -> Result<(), String> {
  for (i, b) in before.iter().enumerate() {
    check!(after[i] == 0, "byte {} of {} after its drop is {:02x} (the secret had {:02x}): {}", i, what, after[i], b, hex(after));
  }
  Ok(())
}

/// where an object has its bytes
fn spot(b: &[u8]) -> (usize, usize) {
  (b.as_ptr() as usize, b.len())
}

/// drop an object in storage of ours and look at the memory that held its bytes, in that storage or behind it
fn dropped_clean<T: AsRef<[u8]>>(b: &mut MaybeUninit<T>, v: &[u8], others: &[(usize, usize)], what: &str) -> Result<(), String> {
  let here = b.as_ptr() as usize;
  let (at, n) = spot(unsafe { b.assume_init_ref() }.as_ref());
  let inside = at >= here && at + n <= here + std::mem::size_of::<T>();
  crate::alloc::spy(&[(at, n)]);
  unsafe { b.assume_init_drop() };
  let freed = crate::alloc::spied().pop().unwrap();
  if inside {
    return erased(v, &raw(b)[at - here..at - here + n], what);
  }
  match freed {
    Some(bytes) => erased(v, &bytes, what),
    // still in use by a copy
    None if others.iter().any(|o| o.0 == at) => Ok(()),
    None => erased(v, unsafe { std::slice::from_raw_parts(at as *const u8, n) }, what)
  }
}

fn new_entropy(s: &mut Src, e: &[u8]) -> Result<Entropy, String> {
  Ok(match s.below(4) {
    0 => Entropy::from_slice(e).map_err(|e| format!("{}", e))?,
    1 => variant(e),
    2 => {
      let t = types()[rb::SIZES.iter().position(|x| *x == e.len()).unwrap()];
      let at = std::cell::Cell::new(0);
      Entropy::generate(t, |b| {
        b.iter_mut().enumerate().for_each(|(i, x)| *x = e[(at.get() + i) % e.len()]);
        at.set(at.get() + b.len());
      })
    }
    _ => {
      let t = rb::phrase(0, &rb::encode(e));
      let m = Mnemonics::from_string(dict(0), &t).map_err(|e| format!("{}", e))?;
      Entropy::from_mnemonics(&m).map_err(|e| format!("{}", e))?
    }
  })
}

fn new_seed(s: &mut Src, e: &[u8]) -> Result<Seed, String> {
  Ok(if s.bool() {
    Seed::from_slice(e).map_err(|e| format!("{}", e))?
  } else {
    let mut a = [0u8; 64];
    a.copy_from_slice(e);
    Seed::from_bytes(a)
  })
}

/// create, copy and drop objects in storage of our own, in any order
fn storage(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mut live: Vec<(Slot, Vec<u8>)> = Vec::new();
  let mut dropped = 0;
  for step in 0..s.range(2, 14) {
    let op = if live.is_empty() { s.below(2) } else { s.below(6) };
    match op {
      0 => {
        let n = *s.choose(&rb::SIZES);
        let e = secret(s, n);
        let x = new_entropy(s, &e)?;
        let mut b = Box::new(MaybeUninit::uninit());
        b.write(x);
        cx.note(|| format!("{}: entropy {}", step, hex(&e)));
        live.push((Slot::E(b), e));
      }
      1 => {
        let e = secret(s, 64);
        let x = new_seed(s, &e)?;
        let mut b = Box::new(MaybeUninit::uninit());
        b.write(x);
        cx.note(|| format!("{}: seed {}", step, hex(&e)));
        live.push((Slot::S(b), e));
      }
      2 => {
        // a copy
        let i = s.idx(live.len());
        let v = live[i].1.clone();
        cx.note(|| format!("{}: copy of {}", step, i));
        cx.label("copied");
        let c = match &live[i].0 {
          Slot::E(b) => {
            let mut n = Box::new(MaybeUninit::uninit());
            n.write(unsafe { b.assume_init_ref() }.clone());
            Slot::E(n)
          }
          Slot::S(b) => {
            let mut n = Box::new(MaybeUninit::uninit());
            n.write(Seed::from_slice(unsafe { b.assume_init_ref() }.as_ref()).map_err(|e| format!("{}", e))?);
            Slot::S(n)
          }
        };
        live.push((c, v));
      }
      _ => {
        let i = s.idx(live.len());
        let (mut x, v) = live.swap_remove(i);
        cx.note(|| format!("{}: drop of {}", step, hex(&v)));
        dropped += 1;
        let others: Vec<(usize, usize)> = live
          .iter()
          .map(|(y, _)| match y {
            Slot::E(b) => spot(unsafe { b.assume_init_ref() }.as_ref()),
            Slot::S(b) => spot(unsafe { b.assume_init_ref() }.as_ref())
          })
          .collect();
        match &mut x {
          Slot::E(b) => {
            cx.label("entropy dropped");
            dropped_clean(b, &v, &others, "an entropy")?;
          }
          Slot::S(b) => {
            cx.label("seed dropped");
            dropped_clean(b, &v, &others, "a seed")?;
          }
        }
      }
    }
    for (x, v) in &live {
      check!(&value(x) == v, "an object holds {} instead of {}", hex(&value(x)), hex(v));
    }
  }
  if dropped > 0 {
    cx.nt();
  }
  for (mut x, _) in live {
    match &mut x {
      Slot::E(b) => unsafe { b.assume_init_drop() },
      Slot::S(b) => unsafe { b.assume_init_drop() }
    }
  }
  Ok(())
}

#[inline(never)]
fn release<T>(x: T) {
  drop(x)
}

fn let_go<T>(x: T, spots: &[(usize, usize)]) -> Vec<Option<Vec<u8>>> {
  crate::alloc::spy(spots);
  release(x);
  crate::alloc::spied()
}

/// objects in memory of the allocator: boxes and vectors, which is given back with zeros where their bytes were
fn heap(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let kind = s.below(4);
  let n = if kind == 0 || kind == 2 { *s.choose(&rb::SIZES) } else { 64 };
  let e = secret(s, n);
  cx.nt();
  cx.note(|| format!("{} {}", ["boxed entropy", "boxed seed", "vector of entropies", "vector of seeds"][kind as usize], hex(&e)));
  let left = match kind {
    0 => {
      let b = Box::new(new_entropy(s, &e)?);
      check!(b.as_ref().as_ref() == &e[..], "value changed");
      let at = spot(b.as_ref().as_ref());
      let_go(b, &[at])
    }
    1 => {
      let b = Box::new(new_seed(s, &e)?);
      check!(b.as_ref().as_ref() == &e[..], "value changed");
      let at = spot(b.as_ref().as_ref());
      let_go(b, &[at])
    }
    2 => {
      let k = s.range(1, 4);
      let mut v = Vec::with_capacity(4);
      for _ in 0..k {
        v.push(new_entropy(s, &e)?);
      }
      let at: Vec<_> = v.iter().map(|x| spot(x.as_ref())).collect();
      let_go(v, &at)
    }
    _ => {
      let k = s.range(1, 4);
      let mut v = Vec::with_capacity(4);
      for _ in 0..k {
        v.push(new_seed(s, &e)?);
      }
      let at: Vec<_> = v.iter().map(|x| spot(x.as_ref())).collect();
      let_go(v, &at)
    }
  };
  for (i, b) in left.iter().enumerate() {
    match b {
      Some(b) => erased(&e, b, &format!("object {}", i))?,
      None => bail!("the memory of object {} was not freed", i)
    }
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C18",
    subs: vec![
      Sub {
        name: "storage",
        rule: "2..14 creations (all constructors), copies and drops of entropies of all sizes and seeds in storage that is read after each drop; non-trivial when something is dropped",
        quick: 400_000,
        thorough: 20_000_000,
        enumerate: None,
        f: storage
      },
      Sub {
        name: "heap",
        rule: "boxes and vectors of entropies and seeds dropped under an allocator that keeps what the places of their bytes hold when freed",
        quick: 200_000,
        thorough: 10_000_000,
        enumerate: None,
        f: heap
      }
    ]
  }
}
