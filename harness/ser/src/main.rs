//! One request per line: fields separated by a blank, byte strings in hex after an 'x'. One answer per line.
#[path = "ops.rs"]
mod ops;
use ops::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::fmt::Debug;
use std::io::{BufRead, Write};

/// everything the formats make of a value: its JSON text, its bincode bytes, and what reading them gives
fn write<T: Serialize + DeserializeOwned + Debug + PartialEq>(v: &T) -> String {
  let j = match serde_json::to_string(v) {
    Ok(j) => j,
    Err(e) => return format!("fail json {}", e)
  };
  let b = match bincode::serialize(v) {
    Ok(b) => b,
    Err(e) => return format!("fail bincode {}", e)
  };
  let val = match serde_json::to_value(v) {
    Ok(x) => x,
    Err(e) => return format!("fail value {}", e)
  };
  if serde_json::to_vec(v).ok() != Some(j.clone().into_bytes()) || val.to_string() != j {
    return "fail the ways to write JSON disagree".to_string();
  }
  let pretty = serde_json::to_string_pretty(v).unwrap_or_default();
  let mut bad = Vec::new();
  let mut see = |how: &str, r: Result<T, String>| match r {
    Ok(x) if x == *v => {}
    Ok(x) => bad.push(format!("{} gives {:?}", how, x)),
    Err(e) => bad.push(format!("{} fails: {}", how, e))
  };
  see("JSON text", serde_json::from_str(&j).map_err(|e| e.to_string()));
  see("JSON bytes", serde_json::from_slice(j.as_bytes()).map_err(|e| e.to_string()));
  see("JSON stream", serde_json::from_reader(j.as_bytes()).map_err(|e| e.to_string()));
  see("JSON value", serde_json::from_value(val.clone()).map_err(|e| e.to_string()));
  see("laid out JSON", serde_json::from_str(&pretty).map_err(|e| e.to_string()));
  see("bincode", bincode::deserialize(&b).map_err(|e| e.to_string()));
  see("bincode stream", bincode::deserialize_from(&b[..]).map_err(|e| e.to_string()));
  // inside other values, as users keep them
  let list = vec![Some(v), None, Some(v)];
  let lj = serde_json::to_string(&list).unwrap_or_default();
  let lb = bincode::serialize(&list).unwrap_or_default();
  let two = |how: &str, r: Result<Vec<Option<T>>, String>| match r {
    Ok(x) => {
      if x.len() == 3 && x[0].as_ref() == Some(v) && x[1].is_none() && x[2].as_ref() == Some(v) {
        None
      } else {
        Some(format!("{} gives {:?}", how, x))
      }
    }
    Err(e) => Some(format!("{} fails: {}", how, e))
  };
  bad.extend(two("a JSON list", serde_json::from_str(&lj).map_err(|e| e.to_string())));
  bad.extend(two("a bincode list", bincode::deserialize(&lb).map_err(|e| e.to_string())));
  if !bad.is_empty() {
    return format!("fail {}", bad.join("; ").replace('\n', " "));
  }
  format!("ok {} {}", tohex(j.as_bytes()), tohex(&b))
}

/// what reading these bytes gives, told by the value's own text and by writing it again
fn read<T: Serialize + DeserializeOwned + Debug + PartialEq>(json: bool, b: &[u8]) -> String {
  let r: Result<T, String> = if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { bincode::deserialize(b).map_err(|e| e.to_string()) };
  if json {
    let s: Result<T, String> = serde_json::from_reader(b).map_err(|e| e.to_string());
    if s.is_ok() != r.is_ok() || (s.is_ok() && s != r) {
      return format!("fail read whole: {:?}, as a stream: {:?}", r, s);
    }
  }
  match r {
    Ok(v) => format!("{} {}", write(&v), tohex(format!("{:?}", v).as_bytes())),
    Err(_) => "err".to_string()
  }
}

fn one(f: &[&str]) -> String {
  match f[0] {
    "wtype" => match totext(f[1]).parse::<bip39::Type>() {
      Ok(t) => write(&t),
      Err(e) => format!("err {}", e)
    },
    "wphrase" => match bip39::MnemonicString::new(dic(f[2]), totext(f[1])) {
      Ok(s) => write(&s),
      Err(e) => format!("err {}", e)
    },
    "wentropy" => write(&bip39::Entropy::from_slice(&unhexx(f[1])).unwrap().to_mnemonics().to_string(dic(f[2]))),
    "wword" => match bip39::Mnemonics::from_string(dic(f[2]), &totext(f[1])) {
      Err(bip39::Error::LanguageError(e)) => write(&e),
      r => format!("err {:?}", r)
    },
    "whex" => match bip39::util::hex::decode(&totext(f[1])) {
      Err(e) => write(&e),
      r => format!("err {:?}", r)
    },
    "read" => {
      let json = f[2] == "json";
      let b = unhexx(f[3]);
      match f[1] {
        "type" => read::<bip39::Type>(json, &b),
        "phrase" => read::<bip39::MnemonicString>(json, &b),
        "word" => read::<bip39::dictionary::Error>(json, &b),
        _ => read::<bip39::util::hex::Error>(json, &b)
      }
    }
    // a phrase that was written, read, and used: its seed
    "use" => match serde_json::from_slice::<bip39::MnemonicString>(&unhexx(f[1])) {
      Ok(s) => tohex(bip39::Seed::from_mnemonic_string(&s, &unhexx(f[2])).as_ref()),
      Err(_) => "err".to_string()
    },
    "order" => {
      let t: Vec<bip39::Type> = f[1..].iter().map(|x| serde_json::from_slice(&unhexx(x)).unwrap()).collect();
      format!("{:?}", t[0].cmp(&t[1]))
    }
    _ => op(f)
  }
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let stdin = std::io::stdin();
  let stdout = std::io::stdout();
  for line in stdin.lock().lines() {
    let line = match line {
      Ok(l) => l,
      Err(_) => return
    };
    let f: Vec<&str> = line.split(' ').collect();
    let a = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| one(&f))) {
      Ok(a) => a,
      Err(e) => {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic {}", m.unwrap_or_default())
      }
    };
    let mut o = stdout.lock();
    if writeln!(o, "{}", a.replace('\n', "\\n")).and_then(|_| o.flush()).is_err() {
      return;
    }
  }
}
