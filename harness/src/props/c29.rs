//! Memory is only touched where it is the callers' or the library's own, and only what was written is read. This property
//! is run by a harness and a library built with AddressSanitizer (target/asan); a report of it ends the process.
use crate::alloc;
use crate::engine::*;
use std::sync::OnceLock;

static TABLE: OnceLock<Vec<&'static Sub>> = OnceLock::new();

fn run(sub: &Sub, s: &mut Src, cx: &mut Cx, fill: u8) -> Result<(), String> {
  crate::osrand::reset();
  alloc::fill(fill);
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.f)(s, cx)));
  alloc::end();
  let p = take_panic();
  r.unwrap_or_else(|_| Err(p.unwrap_or_default()))
}

fn watched<const K: usize>(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let sub = TABLE.get().ok_or("no table")?[K];
  // fresh memory holds something else each time
  let r = run(sub, s, cx, 0xa5);
  if r.is_err() {
    // what is wrong in itself is for the other properties to report
    let mut again = Src::replaying(s.tape.clone());
    let mut inner = cx.quiet();
    inner.want = false;
    if run(sub, &mut again, &mut inner, 0).is_ok() {
      bail!("depends on what was in memory before: {}", r.unwrap_err());
    }
  }
  Ok(())
}

macro_rules! fns {
  ($($k:literal)*) => { [$(watched::<$k>),*] };
}
const FNS: [CaseFn; 120] = fns!(
  0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
  30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59
  60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89
  90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119
);

pub fn prop(all: &[Prop]) -> Prop {
  // those that look at memory that was given back, that drive other programs or run others
  let skip = ["C18", "C21", "C22", "C23", "C24", "C25", "C27"];
  let mut subs = Vec::new();
  let mut table: Vec<&'static Sub> = Vec::new();
  for p in all.iter().filter(|p| !skip.contains(&p.id)) {
    // of C28 only what is its own
    for s in p.subs.iter().filter(|s| p.id != "C28" || !s.name.contains(' ')) {
      let k = table.len();
      table.push(Box::leak(Box::new(Sub { name: s.name, rule: s.rule, quick: s.quick, thorough: s.thorough, enumerate: s.enumerate, f: s.f })));
      subs.push(Sub {
        name: Box::leak(format!("{} {}", p.id, s.name).into_boxed_str()),
        rule: s.rule,
        quick: (s.quick / 12).max(s.quick.min(16)),
        thorough: s.thorough / 12,
        enumerate: s.enumerate,
        f: FNS[k]
      });
    }
  }
  let _ = TABLE.set(table);
  Prop { id: "C29", subs }
}

#[cfg(kcv_asan)]
mod options {
  use std::ffi::CStr;
  use std::io::Write;
  use std::os::raw::c_char;
  #[no_mangle]
  pub extern "C" fn __asan_default_options() -> *const c_char {
    c"detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=1:allocator_may_return_null=1:hard_rss_limit_mb=3500:max_allocation_size_mb=3000:quarantine_size_mb=32:detect_stack_use_after_return=1:symbolize=0".as_ptr()
  }
  extern "C" {
    fn __asan_set_error_report_callback(f: extern "C" fn(*const c_char));
  }
  /// what was found goes with the case
  extern "C" fn found(text: *const c_char) {
    let t = unsafe { CStr::from_ptr(text) }.to_string_lossy().into_owned();
    let line = t.lines().find(|l| l.contains("ERROR: AddressSanitizer")).unwrap_or("AddressSanitizer").to_string();
    // without addresses, which differ from run to run
    let words: Vec<&str> = line.split_whitespace().filter(|w| !w.contains("0x") && !w.starts_with("==")).collect();
    if let Ok(p) = std::env::var("KCV_NOTES") {
      if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(p) {
        let _ = f.write_all(format!("{}\n", words.join(" ")).as_bytes());
      }
    }
  }
  pub fn watch() {
    unsafe { __asan_set_error_report_callback(found) }
  }
}
/// once for each process
pub fn watch() {
  #[cfg(kcv_asan)]
  options::watch();
}
