//! One request per line: fields separated by a blank, byte strings in hex after an 'x'. One answer per line.
use keychain::{Error, KeyPath, Keychain, KeychainManager, Language, Network};
use std::io::{BufRead, Write};

struct P([u32; 5]);
impl KeyPath for P {
  fn purpose(&self) -> u32 {
    self.0[0]
  }
  fn coin(&self) -> u32 {
    self.0[1]
  }
  fn account(&self) -> u32 {
    self.0[2]
  }
  fn change(&self) -> u32 {
    self.0[3]
  }
  fn address(&self) -> u32 {
    self.0[4]
  }
}

fn hex(b: &[u8]) -> String {
  let mut s = String::from("x");
  for x in b {
    s.push_str(&format!("{:02x}", x));
  }
  s
}
fn unhex(s: &str) -> Vec<u8> {
  let s = &s[1..];
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn text(s: &str) -> String {
  String::from_utf8(unhex(s)).unwrap()
}
fn lang(s: &str) -> Language {
  use Language::*;
  [English, French, Japanese, Korean, ChineseSimplified, ChineseTraditional, Italian, Spanish][s.parse::<usize>().unwrap()]
}
fn num(s: &str) -> u32 {
  s.parse().unwrap()
}
fn path(f: &[&str]) -> P {
  P([num(f[0]), num(f[1]), num(f[2]), num(f[3]), num(f[4])])
}
fn list(mut v: Vec<u32>) -> String {
  v.sort();
  v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")
}
fn err(e: &Error) -> String {
  let k = match e {
    Error::WrongPassword => "WrongPassword",
    Error::NotEnoughData => "NotEnoughData",
    Error::SeedIsNotSaved => "SeedIsNotSaved",
    Error::CantCalculateSeedSize(_, _) => "CantCalculateSeedSize",
    Error::InvalidSeedSize(_) => "InvalidSeedSize",
    Error::KeyDoesNotExist(_) => "KeyDoesNotExist",
    Error::KeyAlreadyExist(_) => "KeyAlreadyExist",
    Error::NetworkIsNotSupported(_) => "NetworkIsNotSupported",
    Error::DataError(_) => "DataError",
    Error::KeyError(_, _) => "KeyError",
    Error::MnemonicError(_) => "MnemonicError",
    Error::KeyPathError(_) => "KeyPathError"
  };
  format!("err {}\t{}", k, format!("{}", e).replace('\n', "\\n"))
}

#[derive(Default)]
struct State {
  m: Option<KeychainManager>,
  k: Option<Keychain>
}

fn serve(st: &mut State, f: &[&str]) -> Result<String, Error> {
  macro_rules! m {
    () => {
      match &st.m {
        Some(m) => m,
        None => return Ok("none".into())
      }
    };
  }
  macro_rules! k {
    () => {
      match &st.k {
        Some(k) => k,
        None => return Ok("none".into())
      }
    };
  }
  Ok(match f[0] {
    "all" => list(Network::all().iter().map(|n| n.0).collect()),
    "new" => {
      st.m = None;
      st.k = None;
      st.m = Some(KeychainManager::new()?);
      "ok".into()
    }
    "with" => {
      st.m = None;
      st.k = None;
      let v: Vec<Network> = f[1..].iter().map(|n| Network(num(n))).collect();
      st.m = Some(KeychainManager::with_networks(&v)?);
      "ok".into()
    }
    "has" => m!().has_network(&Network(num(f[1]))).to_string(),
    "gen" => hex(m!().generate_mnemonic(Some(lang(f[1])))?.as_bytes()),
    "seed" => hex(&m!().keychain_data_from_seed(&unhex(f[1]), &text(f[2]))?),
    "phrase" => hex(&m!().keychain_data_from_mnemonic(&text(f[1]), &text(f[2]), Some(lang(f[3])))?),
    "open" => {
      st.k = None;
      let k = m!().keychain_from_data(&unhex(f[1]), &text(f[2]))?;
      let l = list(k.networks().iter().map(|n| n.0).collect());
      st.k = Some(k);
      format!("ok {}", l)
    }
    "add" => hex(&m!().add_network(&unhex(f[1]), &text(f[2]), Network(num(f[3])))?),
    "change" => hex(&m!().change_password(&unhex(f[1]), &text(f[2]), &text(f[3]))?),
    "keys" => {
      let mut k = m!().get_keys_data(&unhex(f[1]), &text(f[2]))?;
      k.sort_by_key(|x| (x.0).0);
      format!("ok {}", k.iter().map(|(n, d)| format!("{}:{}", n.0, hex(d))).collect::<Vec<_>>().join(" "))
    }
    "mnemonic" => {
      let (t, l) = m!().retrieve_mnemonic(&unhex(f[1]), &text(f[2]))?;
      format!("{} {:?}", hex(t.as_bytes()), l)
    }
    "pub" => hex(&k!().pub_key(&Network(num(f[1])), &path(&f[2..]))?),
    "sign" => hex(&k!().sign(&Network(num(f[1])), &unhex(f[2]), &path(&f[3..]))?),
    "verify" => k!().verify(&Network(num(f[1])), &unhex(f[2]), &unhex(f[3]), &path(&f[4..]))?.to_string(),
    "text" => match keychain::GenericKeyPath::from(&text(f[1])) {
      Ok(p) => format!("{} {} {} {} {} {}", p.purpose(), p.coin(), p.account(), p.change(), p.address(), hex(p.to_string().as_bytes())),
      Err(e) => format!("refused\t{}", format!("{}", e).replace('\n', "\\n"))
    },
    _ => "unknown request".into()
  })
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut st = State::default();
  let out = std::io::stdout();
  for line in std::io::stdin().lock().lines() {
    let line = match line {
      Ok(l) => l,
      Err(_) => break
    };
    let f: Vec<&str> = line.split(' ').collect();
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| serve(&mut st, &f))) {
      Ok(Ok(t)) => t,
      Ok(Err(e)) => err(&e),
      Err(p) => {
        let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&'static str>().map(|s| s.to_string()));
        format!("panic {}", t.unwrap_or_default().replace('\n', " "))
      }
    };
    let mut o = out.lock();
    if writeln!(o, "{}", r).and_then(|_| o.flush()).is_err() {
      break;
    }
  }
}
