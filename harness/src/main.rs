#[macro_use]
mod engine;
mod alloc;
mod capi;
mod common;
mod cov;
mod osrand;
mod props;
mod refimpl;

use std::path::PathBuf;

#[global_allocator]
static GLOBAL: alloc::Recorder = alloc::Recorder;

fn usage() -> i32 {
  eprintln!("usage: kcv run ID TIER SEED ROOT | worker ... | tape ... | replay FILE | list");
  2
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let props = props::all();
  let find = |id: &str| props.iter().find(|p| p.id == id);
  let rc = match a.get(1).map(|s| s.as_str()) {
    Some("run") if a.len() == 6 => match find(&a[2]) {
      Some(p) => engine::run_prop(p, &a[3], a[4].parse().unwrap_or(1), &PathBuf::from(&a[5])),
      None => usage()
    },
    Some("worker") if a.len() == 8 => match find(&a[2]) {
      Some(p) => {
        engine::worker(
          p,
          &a[3],
          a[4].parse().unwrap_or(1),
          a[5].parse().unwrap_or(0),
          &PathBuf::from(&a[7]),
          a[6].parse().unwrap_or(600)
        );
        0
      }
      None => usage()
    },
    Some("tape") if a.len() == 6 => match find(&a[2]) {
      Some(p) => {
        let t = std::fs::read(&a[4]).ok().and_then(|b| refimpl::json::parse(&b));
        let t: Vec<u64> =
          t.as_ref().and_then(|j| j.arr()).unwrap_or(&[]).iter().filter_map(|x| x.u64()).collect();
        engine::run_tape(p, &a[3], t, Some(&PathBuf::from(&a[5])), false)
      }
      None => usage()
    },
    Some("cold") if a.len() == 3 => props::c20::cold_main(&a[2]),
    Some("replay") if a.len() == 3 => engine::replay(&props, &PathBuf::from(&a[2])),
    Some("bench") => {
      let t = std::time::Instant::now();
      for _ in 0..20 {
        refimpl::aead::envelope_seal(b"x", "p", &[0; 32], &[0; 12]);
      }
      println!("reference {:?}", t.elapsed() / 20);
      let b = refimpl::aead::envelope_seal(b"x", "p", &[0; 32], &[0; 12]);
      let t = std::time::Instant::now();
      for _ in 0..20 {
        let _ = keychain::crypt::decrypt(&b, "p");
      }
      println!("library {:?}", t.elapsed() / 20);
      0
    }
    Some("selftest") => match refimpl::selftest::run() {
      Ok(()) => {
        println!("oracle self-test ok");
        0
      }
      Err(e) => {
        println!("{}", e);
        2
      }
    },
    Some("list") => {
      for p in &props {
        for s in &p.subs {
          println!("{} {} quick={} thorough={} enum={:?}", p.id, s.name, s.quick, s.thorough, s.enumerate);
        }
      }
      0
    }
    _ => usage()
  };
  std::process::exit(rc);
}
