// Included by both programs: everything bip39 does, as text, so that the two builds can be compared.
use bip39::util::bits::{BitReaderBy11, BitWriterBy11};
use bip39::util::hex as hx;
use bip39::{dictionary, Entropy, Mnemonics, MnemonicIndex, MnemonicString, Seed, Type};

pub fn tohex(b: &[u8]) -> String {
  let mut s = String::from("x");
  for x in b {
    s.push_str(&format!("{:02x}", x));
  }
  s
}
pub fn unhexx(s: &str) -> Vec<u8> {
  let s = &s[1..];
  (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn totext(s: &str) -> String {
  String::from_utf8(unhexx(s)).unwrap()
}
pub fn dic(l: &str) -> &'static dictionary::DefaultDictionary {
  static EN: dictionary::DefaultDictionary = dictionary::ENGLISH;
  static FR: dictionary::DefaultDictionary = dictionary::FRENCH;
  static JA: dictionary::DefaultDictionary = dictionary::JAPANESE;
  static KO: dictionary::DefaultDictionary = dictionary::KOREAN;
  static CS: dictionary::DefaultDictionary = dictionary::CHINESE_SIMPLIFIED;
  static CT: dictionary::DefaultDictionary = dictionary::CHINESE_TRADITIONAL;
  static IT: dictionary::DefaultDictionary = dictionary::ITALIAN;
  static ES: dictionary::DefaultDictionary = dictionary::SPANISH;
  [&EN, &FR, &JA, &KO, &CS, &CT, &IT, &ES][l.parse::<usize>().unwrap()]
}
fn entropy(e: &Entropy) -> String {
  format!("{} {} {} {:?} {:?}", e, e.checksum(), tohex(e.as_ref()), e.get_type(), e.to_mnemonics().as_ref().iter().map(|m| m.0).collect::<Vec<_>>())
}

pub fn op(f: &[&str]) -> String {
  match f[0] {
    "entropy" => match Entropy::from_slice(&unhexx(f[1])) {
      Ok(e) => format!("{} {}", entropy(&e), tohex(e.to_mnemonics().to_string(dic(f[2])).as_bytes())),
      Err(e) => format!("err {} {:?}", e, e)
    },
    "generate" => {
      let b = unhexx(f[2]);
      let t: Type = match f[1].parse() {
        Ok(t) => t,
        Err(e) => return format!("err {}", e)
      };
      entropy(&Entropy::generate(t, |o| {
        for i in 0..o.len() {
          o[i] = b[i % b.len()];
        }
      }))
    }
    "phrase" => {
      let t = totext(f[1]);
      let m = match Mnemonics::from_string(dic(f[2]), &t) {
        Ok(m) => match Entropy::from_mnemonics(&m) {
          Ok(e) => entropy(&e),
          Err(e) => format!("err {} {:?} {:?}", e, e, m)
        },
        Err(e) => format!("err {} {:?}", e, e)
      };
      let s = match MnemonicString::new(dic(f[2]), t) {
        Ok(s) => format!("{:?} {}", s.to_string(), Seed::from_mnemonic_string(&s, &unhexx(f[3]))),
        Err(e) => format!("err {} {:?}", e, e)
      };
      format!("{} | {}", m, s)
    }
    "hex" => match hx::decode(&totext(f[1])) {
      Ok(v) => format!("{} {}", tohex(&v), hx::encode(&v)),
      Err(e) => format!("err {} {:?}", e, e)
    },
    "bits" => {
      let b = unhexx(f[1]);
      let mut w = BitWriterBy11::new();
      for c in b.chunks_exact(2) {
        w.write((c[0] as u16) << 8 & 0x700 | c[1] as u16);
      }
      let v = w.to_bytes();
      let mut r = BitReaderBy11::new(&v);
      let n: Vec<u16> = (0..b.len() / 2).map(|_| r.read()).collect();
      format!("{} {:?} {}", tohex(&v), n, r.size())
    }
    "type" => {
      let a = match totext(f[1]).parse::<Type>() {
        Ok(t) => format!("{} {:?} {} {} {}", t, t, t.to_key_size(), t.checksum_size_bits(), t.mnemonic_count()),
        Err(e) => format!("err {}", e)
      };
      let n: usize = f[2].parse().unwrap();
      let b = |r: bip39::Result<Type>| match r {
        Ok(t) => format!("{:?}", t),
        Err(e) => format!("err {} {:?}", e, e)
      };
      format!("{} {} {} {:?}", a, b(Type::from_word_count(n)), b(Type::from_entropy_size(n)), Type::default())
    }
    "index" => {
      use bip39::dictionary::Language;
      let n: u16 = f[1].parse().unwrap();
      let m = match MnemonicIndex::new(n) {
        Ok(m) => format!("{:?} {}", m, m.to_word(dic(f[2]))),
        Err(e) => format!("err {} {:?}", e, e)
      };
      let t = totext(f[3]);
      let w = match MnemonicIndex::from_word(dic(f[2]), &t) {
        Ok(m) => format!("{:?}", m),
        Err(e) => format!("err {} {:?}", e, e)
      };
      format!("{} {} {} {:?} {:?}", m, w, dic(f[2]).name(), dic(f[2]).separator(), dic(f[2]).lookup_word(MnemonicIndex(n)))
    }
    "seed" => match Seed::from_slice(&unhexx(f[1])) {
      Ok(s) => format!("{} {:?} {}", s, s, tohex(s.as_ref())),
      Err(e) => format!("err {} {:?}", e, e)
    },
    _ => "unknown".to_string()
  }
}
