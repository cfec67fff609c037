//! Published vectors for the oracles. A failure is a harness error, never a violation.
use super::*;

fn eq(what: &str, got: &[u8], want: &str) -> Result<(), String> {
  if hex(got) == want {
    Ok(())
  } else {
    Err(format!("oracle self-test {}: got {} want {}", what, hex(got), want))
  }
}

pub fn run() -> Result<(), String> {
  use super::hash::*;
  eq("sha256", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
  eq(
    "sha512",
    &sha512(b"abc"),
    "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f"
  )?;
  eq("keccak256", &keccak256(b""), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470")?;
  eq("keccak256", &keccak256(b"abc"), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")?;
  eq("ripemd160", &ripemd160(b"abc"), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc")?;
  eq(
    "ripemd160",
    &ripemd160(b"12345678901234567890123456789012345678901234567890123456789012345678901234567890"),
    "9b752e45573d4b39f4dbd3323cab82bf63326bfb"
  )?;
  eq(
    "hmac-sha512",
    &hmac_sha512(b"Jefe", b"what do ya want for nothing?"),
    "164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea2505549758bf75c05a994a6d034f65f8f0e6fdcaeab1a34d4a6b4b636e070a38bce737"
  )?;
  eq(
    "hmac-sha512 long key",
    &hmac_sha512(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"),
    "80b24263c7c1a3ebb71493c1dd7be8b49b46d1f41b4aeec1121b013783f8f3526b56d037e05f2598bd0fd2215d6a1e5295e64f73f63f0aec8b915a985d786598"
  )?;
  // RFC 8439 2.8.2 has associated data, which this wallet never uses; A.5-independent check: 2.4.2 keystream, 2.5.2 MAC
  let key: Vec<u8> = (0u8..32).collect();
  let (ct, _) = aead::seal(
    &key,
    &unhex("000000000000004a00000000"),
    b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it."
  );
  eq("chacha20", &ct[..16], "6e2e359a2568f98041ba0728dd0d6981")?;
  eq(
    "poly1305",
    &aead::poly1305(
      &unhex("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b"),
      b"Cryptographic Forum Research Group"
    ),
    "a8061dc1305136c6c22b8baf0c0127a9"
  )?;
  // poly1305 carry corner cases, RFC 8439 A.3 #7, #8, #9
  eq(
    "poly1305 #7",
    &aead::poly1305(
      &unhex("0200000000000000000000000000000000000000000000000000000000000000"),
      &unhex("ffffffffffffffffffffffffffffffff")
    ),
    "03000000000000000000000000000000"
  )?;
  eq(
    "poly1305 #9",
    &aead::poly1305(
      &unhex("0200000000000000000000000000000000000000000000000000000000000000"),
      &unhex("fdffffffffffffffffffffffffffffff")
    ),
    "faffffffffffffffffffffffffffffff"
  )?;
  // BIP-39
  for l in 0..8 {
    eq(bip39::NAMES[l], &sha256(bip39::raw(l).as_bytes()), bip39::PUBLISHED[l])?;
    if bip39::words(l).len() != 2048 {
      return Err("word list size".into());
    }
  }
  let ph = bip39::phrase(0, &bip39::encode(&[0x7f; 16]));
  if ph != "legal winner thank year wave sausage worth useful legal winner thank yellow" {
    return Err(format!("oracle self-test bip39: {}", ph));
  }
  eq(
    "bip39 seed",
    &bip39::seed(&ph, b"TREZOR"),
    "2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607"
  )?;
  if bip39::decode(&bip39::encode(&[0x80; 32])) != Ok(vec![0x80; 32]) {
    return Err("oracle self-test bip39 round trip".into());
  }
  // BIP-32 vector 1: m/0'/1/2'/2/1000000000
  let m = secp::Xprv::master(&unhex("000102030405060708090a0b0c0d0e0f")).unwrap();
  eq("bip32 m", &m.key, "e8f32e723decf4051aefac8e2c93c9c5b214313817cdb01a1494b917c8436b35")?;
  let h = 0x80000000u32;
  let x = m.walk(&[h, 1, h + 2, 2, 1000000000]).unwrap();
  eq("bip32 key", &x.key, "471b76e389e528d6de6d816857e012c5455051cad6660850e58372a6c3e6e7c8")?;
  eq("bip32 cc", &x.cc, "c783e67b921d2beb8f6b389cc646d7263b4145701dadd2161548a8b078e65e9e")?;
  eq("bip32 fp", &x.parent_fp, "d880d7d8")?;
  eq(
    "bip32 pub",
    &secp::ser_comp(&x.point()),
    "022a471424da5e657499d1ff51cb43c47481a03b1e77f951fe64cec9f5a48f7011"
  )?;
  // ECDSA: k=1 signature made here, verified and recovered; curve sanity
  let c = secp::curve();
  let p = x.point();
  if !c.on_curve(&p) || secp::parse_full(&secp::ser_full(&p)) != Some(p) {
    return Err("oracle self-test curve".into());
  }
  let z = [0x5au8; 32];
  let r = c.n.red(&c.g.unwrap().0);
  let s = c.n.add(&u256::from_be(&z), &c.n.mul(&r, &u256::from_be(&x.key)));
  let mut sig = u256::to_be(&r).to_vec();
  sig.extend_from_slice(&u256::to_be(&s));
  let rec = (c.g.unwrap().1[0] & 1) as u8;
  if !secp::ecdsa_verify(&z, &sig, &Some(p)) || secp::ecdsa_recover(&z, &sig, rec) != Some(p) {
    return Err("oracle self-test ecdsa".into());
  }
  if secp::ecdsa_recover(&z, &sig, rec ^ 1) == Some(p) {
    return Err("oracle self-test recovery".into());
  }
  // Ed25519: RFC 8032 test 2 through the extended-key form
  let sk = unhex("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb");
  let mut e = sha512(&sk).to_vec();
  e[0] &= 248;
  e[31] &= 127;
  e[31] |= 64;
  eq("ed25519 pub", &ed::public(&e), "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c")?;
  let sg = ed::sign(&e, &[0x72]);
  eq(
    "ed25519 sig",
    &sg,
    "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"
  )?;
  if !ed::verify(&ed::public(&e), &[0x72], &sg) || ed::verify(&ed::public(&e), &[0x73], &sg) {
    return Err("oracle self-test ed25519 verify".into());
  }
  // base64, JSON
  for (a, b) in [("", ""), ("f", "Zg=="), ("fo", "Zm8="), ("foo", "Zm9v"), ("foobar", "Zm9vYmFy")] {
    if b64::encode(a.as_bytes()) != b || b64::decode(b).as_deref() != Some(a.as_bytes()) {
      return Err("oracle self-test base64".into());
    }
  }
  let t = "{\"a\":[1,-2.5e3,null,true,\"x\\\"\\u00e9\\ud83d\\ude00\"]}";
  let j = json::parse(t.as_bytes()).ok_or("oracle self-test json")?;
  if json::parse(j.write().as_bytes()) != Some(j.clone())
    || j.get("a").unwrap().arr().unwrap()[4].str() != Some("x\"\u{e9}\u{1f600}")
  {
    return Err("oracle self-test json".into());
  }
  Ok(())
}
