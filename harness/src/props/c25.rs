//! The library as it is released: optimised, without overflow checks and debug assertions. This property is run by a
//! harness built that way (target/release/kcv) and judges every case of the other properties again.
use crate::engine::*;

pub fn prop(all: &[Prop]) -> Prop {
  // those that drive programs built on their own are left out
  let skip = ["C21", "C23", "C24"];
  let mut subs = Vec::new();
  for p in all.iter().filter(|p| !skip.contains(&p.id)) {
    for s in &p.subs {
      subs.push(Sub {
        name: Box::leak(format!("{} {}", p.id, s.name).into_boxed_str()),
        rule: s.rule,
        quick: (s.quick / 6).max(s.quick.min(24)),
        thorough: s.thorough / 6,
        enumerate: s.enumerate,
        f: s.f
      });
    }
  }
  Prop { id: "C25", subs }
}
