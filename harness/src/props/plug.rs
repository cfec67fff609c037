//! Custom networks: factories and keys of our own, which record what the library gives them.
use keychain::{Key, KeyError, KeyFactory, KeyPath, Network, SeedSize};
use std::cell::RefCell;
use std::rc::Rc;

pub type Log = Rc<RefCell<Vec<Vec<u8>>>>;

#[derive(Clone)]
pub struct Plug {
  pub net: u32,
  pub min: usize,
  pub max: usize,
  pub seeds: Log,
  pub datas: Log,
  /// tag mixed into the key data
  pub tag: Vec<u8>,
  pub fail_make: bool,
  pub fail_load: bool,
  pub data_len: usize
}
impl Plug {
  pub fn new(net: u32, min: usize, max: usize, seeds: Log) -> Plug {
    Plug {
      net,
      min,
      max,
      seeds,
      datas: Rc::new(RefCell::new(Vec::new())),
      tag: vec![],
      fail_make: false,
      fail_load: false,
      data_len: 70
    }
  }
  pub fn data(&self, seed: &[u8]) -> Vec<u8> {
    let mut d = self.tag.clone();
    d.extend_from_slice(&self.net.to_be_bytes());
    d.extend_from_slice(seed);
    d.resize(self.data_len, 0x5a);
    d
  }
}
impl KeyFactory for Plug {
  fn network(&self) -> Network {
    Network(self.net)
  }
  fn seed_size(&self) -> SeedSize {
    SeedSize { min: self.min, max: self.max }
  }
  fn key_from_data(&self, data: &[u8]) -> Result<Box<dyn Key>, KeyError> {
    self.datas.borrow_mut().push(data.to_vec());
    if self.fail_load {
      return Err(KeyError::InvalidKeySize(777001, 777002));
    }
    Ok(Box::new(PlugKey { net: self.net, data: data.to_vec() }))
  }
  fn key_data_from_seed(&self, seed: &[u8]) -> Result<Vec<u8>, KeyError> {
    self.seeds.borrow_mut().push(seed.to_vec());
    if self.fail_make {
      return Err(KeyError::InvalidKeySize(888001, 888002));
    }
    Ok(self.data(seed))
  }
}

pub struct PlugKey {
  pub net: u32,
  pub data: Vec<u8>
}
fn flat(tag: u8, path: &dyn KeyPath, data: &[u8], key: &[u8]) -> Vec<u8> {
  let mut v = vec![tag];
  for x in [path.purpose(), path.coin(), path.account(), path.change(), path.address()] {
    v.extend_from_slice(&x.to_be_bytes());
  }
  v.extend_from_slice(&(data.len() as u32).to_be_bytes());
  v.extend_from_slice(data);
  v.extend_from_slice(key);
  v
}
/// what a PlugKey answers
pub fn plug_pub(key: &[u8], path: &dyn KeyPath) -> Vec<u8> {
  flat(1, path, &[], key)
}
pub fn plug_sign(key: &[u8], data: &[u8], path: &dyn KeyPath) -> Vec<u8> {
  flat(2, path, data, key)
}
impl Key for PlugKey {
  fn network(&self) -> Network {
    Network(self.net)
  }
  fn pub_key(&self, path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    if path.purpose() == 666 {
      return Err(KeyError::InvalidKeySize(999001, 999002));
    }
    Ok(plug_pub(&self.data, path))
  }
  fn sign(&self, data: &[u8], path: &dyn KeyPath) -> Result<Vec<u8>, KeyError> {
    if path.purpose() == 666 {
      return Err(KeyError::InvalidKeySize(999003, 999004));
    }
    Ok(plug_sign(&self.data, data, path))
  }
  fn verify(&self, data: &[u8], sig: &[u8], path: &dyn KeyPath) -> Result<bool, KeyError> {
    if path.purpose() == 666 {
      return Err(KeyError::InvalidSignatureSize(999005, 999006));
    }
    Ok(plug_sign(&self.data, data, path) == sig)
  }
}
