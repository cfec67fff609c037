//! Calls ask nothing of the world outside but memory and random bytes.
//!
//! The cases of the other properties run again, each in a thread of its own under a system-call filter: anything but
//! memory management, locks and the end of the thread is not carried out but recorded. The environment, the clock and
//! the process's hook for panics are watched as well.
use crate::engine::*;
use std::cell::{Cell, UnsafeCell};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Mutex, Once, OnceLock};

extern "C" {
  fn prctl(option: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
  fn sigaction(sig: c_int, new: *const SigAction, old: *mut c_void) -> c_int;
  static environ: *const *const c_char;
}
#[repr(C)]
struct SigAction {
  handler: usize,
  mask: [u64; 16],
  flags: c_int,
  restorer: usize
}
#[repr(C)]
struct Instr {
  code: u16,
  jt: u8,
  jf: u8,
  k: u32
}
#[repr(C)]
struct Program {
  len: u16,
  code: *const Instr
}

/// memory, locks, signals' returns, the end of the thread or process; random bytes
const ALLOWED: [u32; 24] =
  [9, 10, 11, 12, 13, 14, 15, 24, 25, 26, 27, 28, 60, 131, 149, 150, 186, 202, 228, 231, 234, 273, 318, 334];

const TEXT: usize = 160;
thread_local! {
  static INSIDE: Cell<bool> = const { Cell::new(false) };
  static CALLS: Cell<usize> = const { Cell::new(0) };
  static FIRST: Cell<i64> = const { Cell::new(-1) };
  static WHAT: UnsafeCell<[u8; TEXT]> = const { UnsafeCell::new([0; TEXT]) };
}
const ENV: i64 = 10_000;
const CLOCK: i64 = 10_001;
const SETENV: i64 = 10_002;

/// called from signal handlers as well
unsafe fn record(n: i64, text: *const u8, len: usize) {
  CALLS.with(|c| c.set(c.get() + 1));
  if FIRST.with(|f| f.get()) >= 0 {
    return;
  }
  FIRST.with(|f| f.set(n));
  WHAT.with(|w| {
    let w = &mut *w.get();
    for i in 0..len.min(TEXT - 1) {
      w[i] = *text.add(i);
    }
  });
}

unsafe extern "C" fn refused(_sig: c_int, info: *const u8, ctx: *mut u8) {
  let n = *(info.add(24) as *const i32) as i64;
  let regs = ctx.add(40) as *mut i64;
  let (rdi, rsi, rdx) = (*regs.add(8), *regs.add(9), *regs.add(12));
  let path = match n {
    2 | 59 | 80 | 82 | 83 | 84 | 87 => rdi,
    257 | 258 | 263 => rsi,
    _ => 0
  };
  if path > 4096 {
    let p = path as *const u8;
    let mut k = 0;
    while k < TEXT && *p.add(k) != 0 {
      k += 1;
    }
    record(n, p, k);
  } else if n == 1 && rsi > 4096 {
    record(n, rsi as *const u8, rdx as usize);
  } else {
    record(n, std::ptr::null(), 0);
  }
  // not permitted
  *regs.add(13) = -1;
}

/// for this thread, for good
fn confine() -> bool {
  static HANDLER: Once = Once::new();
  HANDLER.call_once(|| unsafe {
    // with details, and not blocked while it runs
    let a = SigAction { handler: refused as *const () as usize, mask: [0; 16], flags: 4 | 0x4000_0000, restorer: 0 };
    sigaction(31, &a, std::ptr::null_mut());
  });
  static CODE: OnceLock<Vec<Instr>> = OnceLock::new();
  let code = CODE.get_or_init(|| {
    let n = ALLOWED.len();
    let mut v = vec![Instr { code: 0x20, jt: 0, jf: 0, k: 0 }];
    for (i, a) in ALLOWED.iter().enumerate() {
      v.push(Instr { code: 0x15, jt: (n - i) as u8, jf: 0, k: *a });
    }
    v.push(Instr { code: 0x06, jt: 0, jf: 0, k: 0x0003_0000 });
    v.push(Instr { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 });
    v
  });
  let p = Program { len: code.len() as u16, code: code.as_ptr() };
  unsafe { prctl(38, 1, 0, 0, 0) == 0 && prctl(22, 2, &p as *const Program as usize, 0, 0) == 0 }
}

unsafe fn lookup(name: *const c_char) -> *const c_char {
  let name = CStr::from_ptr(name).to_bytes();
  if INSIDE.with(|i| i.get()) && !name.starts_with(b"RUST_") {
    record(ENV, name.as_ptr(), name.len());
  }
  let mut e = environ;
  while !e.is_null() && !(*e).is_null() {
    let t = CStr::from_ptr(*e).to_bytes();
    if t.len() > name.len() && t[name.len()] == b'=' && &t[..name.len()] == name {
      return (*e).add(name.len() + 1);
    }
    e = e.add(1);
  }
  std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
  lookup(name)
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: *const c_char) -> *const c_char {
  lookup(name)
}
/// the harness sets nothing this way
#[no_mangle]
pub unsafe extern "C" fn setenv(name: *const c_char, _value: *const c_char, _over: c_int) -> c_int {
  let name = CStr::from_ptr(name).to_bytes();
  if INSIDE.with(|i| i.get()) {
    record(SETENV, name.as_ptr(), name.len());
  }
  0
}
#[cfg(target_arch = "x86_64")]
unsafe fn kernel2(n: i64, a: usize, b: usize) -> i64 {
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: c_int, to: *mut i64) -> c_int {
  if INSIDE.with(|i| i.get()) {
    record(CLOCK, std::ptr::null(), 0);
  }
  if kernel2(228, clock as usize, to as usize) == 0 {
    0
  } else {
    -1
  }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(to: *mut i64, _zone: *mut c_void) -> c_int {
  let mut t = [0i64; 2];
  clock_gettime(0, t.as_mut_ptr());
  if !to.is_null() {
    *to = t[0];
    *to.add(1) = t[1] / 1000;
  }
  0
}
#[no_mangle]
pub unsafe extern "C" fn time(to: *mut i64) -> i64 {
  let mut t = [0i64; 2];
  clock_gettime(0, t.as_mut_ptr());
  if !to.is_null() {
    *to = t[0];
  }
  t[0]
}

fn name(n: i64) -> String {
  match n {
    0 | 17 | 19 | 45 | 47 => "reads a file or socket".into(),
    1 | 18 | 20 => "writes".into(),
    2 | 257 | 437 => "opens a file".into(),
    3 => "closes a file".into(),
    4 | 5 | 6 | 21 | 262 | 269 | 332 => "looks at a file".into(),
    35 | 230 => "sleeps".into(),
    39 | 102 | 104 | 107 | 108 | 110 => "asks who runs it".into(),
    41..=44 | 46 | 48..=55 | 288 => "uses a socket".into(),
    56 | 57 | 58 | 435 => "starts a thread or process".into(),
    59 | 322 => "runs a program".into(),
    63 => "asks for the system's name".into(),
    76 | 77 | 82..=95 | 258..=268 | 316 => "changes files".into(),
    80 | 81 => "changes its folder".into(),
    ENV => "reads the environment".into(),
    SETENV => "changes the environment".into(),
    CLOCK => "reads the clock".into(),
    n => format!("makes system call {}", n)
  }
}

struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
impl<T> Sent<T> {
  fn take(self) -> T {
    self.0
  }
}

type Entry = (&'static str, &'static Sub);
static TABLE: OnceLock<Vec<Entry>> = OnceLock::new();

/// what came of a case: nothing, or the first thing asked of the system and how many there were
type Finding = Result<Option<(i64, String, usize)>, String>;
type Job = Sent<(&'static Sub, *mut Src, *mut Cx)>;

fn case(sub: &'static Sub, s: &mut Src, cx: &mut Cx) -> Finding {
  FIRST.with(|f| f.set(-1));
  CALLS.with(|c| c.set(0));
  WHAT.with(|w| unsafe { *w.get() = [0; TEXT] });
  crate::osrand::reset();
  INSIDE.with(|i| i.set(true));
  // what the calls answer is for the other properties to judge
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.f)(s, cx)));
  INSIDE.with(|i| i.set(false));
  crate::alloc::end();
  drop(r);
  take_panic();
  let n = FIRST.with(|f| f.get());
  if n < 0 {
    return Ok(None);
  }
  let text = WHAT.with(|w| unsafe { (*w.get()).to_vec() });
  let text = String::from_utf8_lossy(&text).trim_end_matches('\0').to_string();
  Ok(Some((n, text, CALLS.with(|c| c.get()))))
}

/// runs a case in the confined thread
fn confined(sub: &'static Sub, s: &mut Src, cx: &mut Cx) -> Finding {
  static THREAD: OnceLock<Mutex<(Sender<Job>, Receiver<Sent<Finding>>)>> = OnceLock::new();
  let lines = THREAD.get_or_init(|| {
    let (to, jobs) = channel::<Job>();
    let (answers, from) = channel::<Sent<Finding>>();
    extern "C" {
      fn mallopt(what: c_int, value: c_int) -> c_int;
    }
    // one heap for all threads: that of another thread looks into /proc when it shrinks
    unsafe { mallopt(-8, 1) };
    let _ = std::thread::Builder::new().stack_size(32 << 20).spawn(move || {
      let ok = confine();
      while let Ok(job) = jobs.recv() {
        let (sub, s, cx) = job.take();
        let cx = unsafe { &mut *cx };
        if !ok {
          // where filters are not to be had the environment, the clock and the hook are still watched
          cx.label("without the system-call filter");
        }
        let r = case(sub, unsafe { &mut *s }, cx);
        if answers.send(Sent(r)).is_err() {
          return;
        }
      }
    });
    Mutex::new((to, from))
  });
  let lines = lines.lock().map_err(|e| e.to_string())?;
  lines.0.send(Sent((sub, s as *mut Src, cx as *mut Cx))).map_err(|e| e.to_string())?;
  lines.1.recv().map_err(|e| e.to_string())?.take()
}

fn alone<const K: usize>(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let (_, sub) = TABLE.get().ok_or("no table")?[K];
  let mut inner = cx.quiet();
  let what = confined(sub, s, &mut inner);
  cx.absorb(inner);
  if let Some((n, text, calls)) = what? {
    bail!(
      "the library {}{}{}",
      name(n),
      if text.is_empty() { String::new() } else { format!(": {:?}", text) },
      if calls > 1 { format!(" ({} calls)", calls) } else { String::new() }
    );
  }
  // somebody else's hook would swallow this
  take_panic();
  let _ = std::panic::catch_unwind(|| panic!("probe"));
  let kept = take_panic().map_or(false, |t| t.ends_with("probe"));
  if !kept {
    hook();
    bail!("the library replaces the process's hook for panics");
  }
  Ok(())
}

macro_rules! fns {
  ($($k:literal)*) => { [$(alone::<$k>),*] };
}
const FNS: [CaseFn; 110] = fns!(
  0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
  30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59
  60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89
  90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109
);

pub fn prop(all: &[Prop]) -> Prop {
  // these use threads, files or other programs of their own
  let skip = ["C20", "C21", "C22", "C23", "C24", "C25", "C27"];
  let mut subs = Vec::new();
  let mut table: Vec<Entry> = Vec::new();
  for p in all.iter().filter(|p| !skip.contains(&p.id)) {
    for s in &p.subs {
      let k = table.len();
      let own: &'static Sub = Box::leak(Box::new(Sub { name: s.name, rule: s.rule, quick: s.quick, thorough: s.thorough, enumerate: s.enumerate, f: s.f }));
      table.push((p.id, own));
      subs.push(Sub {
        name: Box::leak(format!("{} {}", p.id, s.name).into_boxed_str()),
        rule: s.rule,
        quick: (s.quick / 12).max(s.quick.min(16)),
        thorough: s.thorough / 12,
        enumerate: s.enumerate,
        f: FNS[k]
      });
    }
  }
  let _ = TABLE.set(table);
  Prop { id: "C27", subs }
}
