From 549fe543b010692b3fed06af7c06f2c0979fce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 01/14] fix: name the rejected address, not the change, in
 InvalidAddress path errors

---
 keychain/src/networks/bitcoin/key_path.rs | 2 +-
 keychain/src/networks/cardano/key_path.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keychain/src/networks/bitcoin/key_path.rs b/keychain/src/networks/bitcoin/key_path.rs
index da77a71..20e4b9d 100644
--- a/keychain/src/networks/bitcoin/key_path.rs
+++ b/keychain/src/networks/bitcoin/key_path.rs
@@ -40,7 +40,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(())
   }
diff --git a/keychain/src/networks/cardano/key_path.rs b/keychain/src/networks/cardano/key_path.rs
index 6bae86a..7cd2d8c 100644
--- a/keychain/src/networks/cardano/key_path.rs
+++ b/keychain/src/networks/cardano/key_path.rs
@@ -19,7 +19,7 @@ impl KeyPath {
       return Err(Error::InvalidChange(change));
     }
     if address >= BIP44_SOFT_UPPER_BOUND {
-      return Err(Error::InvalidAddress(change));
+      return Err(Error::InvalidAddress(address));
     }
     Ok(KeyPath { account: account + BIP44_SOFT_UPPER_BOUND, change, address })
   }
-- 
2.43.0


From 5329aabd2b93dccdc2764d3ccada6291623a8f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 02/14] fix: do not split a multi-byte character when parsing a
 key path part

---
 keychain/src/key_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 5a9f8d5..35bb6a7 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -85,7 +85,7 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    if &s[s.len() - 1..] == "'" {
+    if s.ends_with('\'') {
       Self::hard_int(index, s)
     } else {
       Self::soft_int(index, s)
-- 
2.43.0


From 0d6ea97a03647c9369158a5b186aebdc7a728e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 03/14] fix: verify secp256k1 signatures of the 65-byte form
 that sign returns

---
 secp256k1_bip32/src/public.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/secp256k1_bip32/src/public.rs b/secp256k1_bip32/src/public.rs
index 2192c68..654dcd3 100644
--- a/secp256k1_bip32/src/public.rs
+++ b/secp256k1_bip32/src/public.rs
@@ -2,7 +2,7 @@ use super::error::KeyError;
 use cryptoxide::digest::Digest;
 use cryptoxide::sha2::Sha256;
 use cryptoxide::sha3::Sha3;
-use secp256k1::{util, verify, Message, PublicKey, Signature};
+use secp256k1::{recover, util, verify, Message, PublicKey, RecoveryId, Signature};
 
 pub struct XPub(PublicKey);
 
@@ -19,8 +19,9 @@ impl XPub {
     Vec::from(self.0.serialize_compressed().as_ref())
   }
 
+  /// Accepts plain signatures and signatures with a recovery id, as returned by `XPrv::sign`
   pub fn verify(&self, data: &[u8], signature: &[u8]) -> Result<bool, KeyError> {
-    if signature.len() != util::SIGNATURE_SIZE {
+    if signature.len() != util::SIGNATURE_SIZE && signature.len() != util::SIGNATURE_SIZE + 1 {
       return Err(KeyError::InvalidSignature(signature.len(), util::SIGNATURE_SIZE));
     }
     let mut sha3 = Sha3::keccak256();
@@ -30,9 +31,21 @@ impl XPub {
 
     let message = Message::parse(&out);
 
-    Signature::parse_slice(signature)
-      .map(|signature| verify(&message, &signature, &self.0))
-      .map_err(|err| err.into())
+    let (signature, recovery) = signature.split_at(util::SIGNATURE_SIZE);
+    let signature = Signature::parse_slice(signature).map_err(|err| KeyError::from(err))?;
+    if !verify(&message, &signature, &self.0) {
+      return Ok(false);
+    }
+
+    match recovery.first() {
+      Some(rec_id) => Ok(
+        RecoveryId::parse(*rec_id)
+          .and_then(|rec_id| recover(&message, &signature, &rec_id))
+          .map(|key| key.serialize()[..] == self.0.serialize()[..])
+          .unwrap_or(false)
+      ),
+      None => Ok(true)
+    }
   }
 
   pub fn sha256(&self) -> [u8; util::MESSAGE_SIZE] {
-- 
2.43.0


From b48b66d4a4b1c88c28616724354c7a86f22607ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 04/14] fix: report over-long Cardano key data instead of
 panicking

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index c06be8d..3dae56c 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -48,7 +48,7 @@ pub struct Key {
 impl Key {
   pub fn from_data(data: &[u8]) -> Result<Self, Error> {
     let mut arr: [u8; XPRV_SIZE] = [0; XPRV_SIZE];
-    if data.len() < XPRV_SIZE {
+    if data.len() != XPRV_SIZE {
       return Err(Error::InvalidKeySize(data.len(), XPRV_SIZE));
     }
     arr.copy_from_slice(data);
-- 
2.43.0


From 9677d548746423494b524b5940ec33388bcf17f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 05/14] fix: report over-long Cardano signatures instead of
 panicking

---
 keychain/src/networks/cardano/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/networks/cardano/key.rs b/keychain/src/networks/cardano/key.rs
index 3dae56c..ef840b4 100644
--- a/keychain/src/networks/cardano/key.rs
+++ b/keychain/src/networks/cardano/key.rs
@@ -126,7 +126,7 @@ impl IKey for Key {
 
   fn verify(&self, data: &[u8], signature: &[u8], path: &dyn KeyPath) -> Result<bool, Error> {
     let mut sign: [u8; SIGNATURE_SIZE] = [0; SIGNATURE_SIZE];
-    if signature.len() < SIGNATURE_SIZE {
+    if signature.len() != SIGNATURE_SIZE {
       return Err(Error::InvalidSignatureSize(signature.len(), SIGNATURE_SIZE));
     }
     sign.copy_from_slice(signature);
-- 
2.43.0


From 6f43056979d354b5d78902af31beadd77dbd5e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 06/14] fix: decrypt data that was encrypted from an empty
 message

---
 keychain/src/crypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/crypt.rs b/keychain/src/crypt.rs
index 1a3b964..65980b6 100644
--- a/keychain/src/crypt.rs
+++ b/keychain/src/crypt.rs
@@ -72,7 +72,7 @@ pub fn encrypt(data: &[u8], password: &str, entropy: &dyn Entropy) -> Vec<u8> {
 pub fn decrypt(data: &[u8], password: &str) -> Result<Vec<u8>, DecryptError> {
   use self::password_encryption_parameter::*;
 
-  if data.len() <= METADATA_SIZE {
+  if data.len() < METADATA_SIZE {
     // not enough input to decrypt.
     return Err(DecryptError::NotEnoughData);
   }
-- 
2.43.0


From ec17cb9c9edfc636f0f76515200ca19fc73afd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 07/14] fix: return an error for word numbers outside of the
 dictionary instead of reading past it

---
 bip39/src/bip39.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bip39/src/bip39.rs b/bip39/src/bip39.rs
index c5568f2..701accd 100755
--- a/bip39/src/bip39.rs
+++ b/bip39/src/bip39.rs
@@ -921,7 +921,11 @@ pub mod dictionary {
       }
     }
     fn lookup_word(&self, mnemonic: MnemonicIndex) -> Result<String> {
-      Ok(unsafe { self.words.get_unchecked(mnemonic.0 as usize) }).map(|s| String::from(*s))
+      self
+        .words
+        .get(mnemonic.0 as usize)
+        .map(|s| String::from(*s))
+        .ok_or_else(|| Error::MnemonicWordNotFoundInDictionary(mnemonic.0.to_string()))
     }
   }
 
-- 
2.43.0


From 8a160249597882ff8541c77aeb3a04331fcf517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 08/14] fix: refuse hardened key path numbers that overflow

---
 keychain/src/key_path.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/keychain/src/key_path.rs b/keychain/src/key_path.rs
index 35bb6a7..38ddf1f 100644
--- a/keychain/src/key_path.rs
+++ b/keychain/src/key_path.rs
@@ -19,7 +19,8 @@ pub enum Error {
   InvalidChange(u32),
   InvalidAddress(u32),
   EmptyValueAtIndex(usize),
-  ParseErrorAtIndex(usize, std::num::ParseIntError)
+  ParseErrorAtIndex(usize, std::num::ParseIntError),
+  HardenedNumberTooBigAtIndex(usize, u32)
 }
 
 impl fmt::Display for Error {
@@ -44,6 +45,9 @@ impl fmt::Display for Error {
       &Error::ParseErrorAtIndex(index, ref err) => {
         write!(f, "Can't parse number at index {}, error: {}", index, err)
       }
+      &Error::HardenedNumberTooBigAtIndex(index, val) => {
+        write!(f, "Hardened number {} at index {} is too big", val, index)
+      }
     }
   }
 }
@@ -71,7 +75,9 @@ impl GenericKeyPath {
     if s.len() == 0 {
       return Err(Error::EmptyValueAtIndex(index));
     }
-    Self::soft_int(index, &s[..s.len() - 1]).map(|val| val + BIP44_SOFT_UPPER_BOUND)
+    Self::soft_int(index, &s[..s.len() - 1]).and_then(|val| {
+      val.checked_add(BIP44_SOFT_UPPER_BOUND).ok_or(Error::HardenedNumberTooBigAtIndex(index, val))
+    })
   }
 
   fn soft_int(index: usize, s: &str) -> Result<u32, Error> {
-- 
2.43.0


From 93cc6902561654cc77133a225eadf75f29b06145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 09/14] fix: accept networks that agree on exactly one seed
 size

---
 keychain/src/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain/src/manager.rs b/keychain/src/manager.rs
index 5b2b81c..b2349c9 100644
--- a/keychain/src/manager.rs
+++ b/keychain/src/manager.rs
@@ -147,7 +147,7 @@ impl KeychainManager {
 
     match min {
       0 => Err(Error::CantCalculateSeedSize(min, max)),
-      m if m >= max => Err(Error::CantCalculateSeedSize(min, max)),
+      m if m > max => Err(Error::CantCalculateSeedSize(min, max)),
       _ => Ok(min)
     }
   }
-- 
2.43.0


From 8224cc846e21c3e7336a7662d0c4975afb92c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 10/14] fix: ignore a null string in delete_string

---
 keychain-c/src/utils/string.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keychain-c/src/utils/string.rs b/keychain-c/src/utils/string.rs
index 4ab4ed0..8a4f2f2 100644
--- a/keychain-c/src/utils/string.rs
+++ b/keychain-c/src/utils/string.rs
@@ -10,6 +10,9 @@ impl Ptr<str> for CharPtr {
   }
 
   unsafe fn free(&mut self) {
+    if self.is_null() {
+      return;
+    }
     let _ = CString::from_raw(*self as *mut c_char);
     *self = std::ptr::null();
   }
-- 
2.43.0


From 7016e90477912d6e113338246874a5e5af9b7cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:58 +0000
Subject: [PATCH 11/14] fix: accept a null pointer for an empty buffer

---
 keychain-c/src/backup.rs     |  6 +++---
 keychain-c/src/keychain_c.rs |  8 ++++----
 keychain-c/src/manager.rs    | 10 +++++-----
 keychain-c/src/utils/data.rs |  8 ++++++++
 4 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/keychain-c/src/backup.rs b/keychain-c/src/backup.rs
index cdc6052..0fc2d93 100644
--- a/keychain-c/src/backup.rs
+++ b/keychain-c/src/backup.rs
@@ -2,7 +2,7 @@ use error::ErrorPtr;
 use keychain::Network as RNetwork;
 use manager::{KeychainManagerPtr, Language};
 use network::Network;
-use utils::data::DataPtr;
+use utils::data::{slice_from_raw, DataPtr};
 use utils::panic::handle_exception_result;
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -86,7 +86,7 @@ pub unsafe extern "C" fn keychain_manager_get_keys_data(
   data: &mut KeyBackupPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(encrypted, encrypted_len);
+    let data_slice = slice_from_raw(encrypted, encrypted_len);
     manager
       .rust_ref()
       .get_keys_data(data_slice, password.rust_ref())
@@ -101,7 +101,7 @@ pub unsafe extern "C" fn keychain_manager_retrieve_mnemonic(
   mnemonic: &mut MnemonicInfoPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_raw(data, data_len);
     manager
       .rust_ref()
       .retrieve_mnemonic(data_slice, password.rust_ref())
diff --git a/keychain-c/src/keychain_c.rs b/keychain-c/src/keychain_c.rs
index f4fc79a..826df85 100644
--- a/keychain-c/src/keychain_c.rs
+++ b/keychain-c/src/keychain_c.rs
@@ -3,7 +3,7 @@ use key_path::KeyPath;
 use keychain::Keychain as RKeychain;
 use network::{Network, NetworksPtr};
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_raw, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -54,7 +54,7 @@ pub unsafe extern "C" fn keychain_sign(
   signature: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_raw(data, data_len);
     keychain.rust_ref().sign(&network.into(), data_slice, &path).map(|data| DataPtr::from(data))
   })
   .response(signature, error)
@@ -66,8 +66,8 @@ pub unsafe extern "C" fn keychain_verify(
   signature_len: usize, path: KeyPath, result: &mut bool, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
-    let signature_slice = std::slice::from_raw_parts(signature, signature_len);
+    let data_slice = slice_from_raw(data, data_len);
+    let signature_slice = slice_from_raw(signature, signature_len);
 
     keychain.rust_ref().verify(&network.into(), data_slice, signature_slice, &path)
   })
diff --git a/keychain-c/src/manager.rs b/keychain-c/src/manager.rs
index 0d0c1d0..aee62d0 100644
--- a/keychain-c/src/manager.rs
+++ b/keychain-c/src/manager.rs
@@ -4,7 +4,7 @@ use keychain_c::KeychainPtr;
 use network::Network;
 use num_traits::FromPrimitive;
 use std::ffi::c_void;
-use utils::data::DataPtr;
+use utils::data::{slice_from_raw, DataPtr};
 use utils::panic::{handle_exception, handle_exception_result};
 use utils::ptr::Ptr;
 use utils::result::CResult;
@@ -92,7 +92,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_data_from_seed(
   data: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let seed_slice = std::slice::from_raw_parts(seed, seed_len);
+    let seed_slice = slice_from_raw(seed, seed_len);
     manager
       .rust_ref()
       .keychain_data_from_seed(seed_slice, password.rust_ref())
@@ -121,7 +121,7 @@ pub unsafe extern "C" fn keychain_manager_keychain_from_data(
   keychain: &mut KeychainPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_raw(data, data_len);
     manager
       .rust_ref()
       .keychain_from_data(data_slice, password.rust_ref())
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn keychain_manager_add_network(
   network: Network, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_raw(data, data_len);
     manager
       .rust_ref()
       .add_network(data_slice, password.rust_ref(), network.into())
@@ -151,7 +151,7 @@ pub unsafe extern "C" fn keychain_manager_change_password(
   new_password: CharPtr, response: &mut DataPtr, error: &mut ErrorPtr
 ) -> bool {
   handle_exception_result(|| {
-    let data_slice = std::slice::from_raw_parts(data, data_len);
+    let data_slice = slice_from_raw(data, data_len);
     manager
       .rust_ref()
       .change_password(data_slice, old_password.rust_ref(), new_password.rust_ref())
diff --git a/keychain-c/src/utils/data.rs b/keychain-c/src/utils/data.rs
index 506f857..2d6811c 100644
--- a/keychain-c/src/utils/data.rs
+++ b/keychain-c/src/utils/data.rs
@@ -37,6 +37,14 @@ impl From<Vec<u8>> for DataPtr {
   }
 }
 
+/// Slice from C pointer and length. Null pointer with zero length is an empty slice.
+pub unsafe fn slice_from_raw<'a>(ptr: *const u8, len: usize) -> &'a [u8] {
+  if len == 0 {
+    return &[];
+  }
+  std::slice::from_raw_parts(ptr, len)
+}
+
 #[no_mangle]
 pub unsafe extern "C" fn delete_data(data: &mut DataPtr) {
   data.free();
-- 
2.43.0


From d86c32bbc71ab8333503d7667a3afb060a6e23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 12/14] fix: release network lists with the layout they were
 allocated with

---
 keychain-c/src/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keychain-c/src/network.rs b/keychain-c/src/network.rs
index ab30ccc..97f3585 100644
--- a/keychain-c/src/network.rs
+++ b/keychain-c/src/network.rs
@@ -33,7 +33,7 @@ impl Ptr<[Network]> for NetworksPtr {
     if self.ptr.is_null() {
       return;
     }
-    let _ = Vec::from_raw_parts(self.ptr as *mut &[Network], self.count, self.count);
+    let _ = Vec::from_raw_parts(self.ptr as *mut Network, self.count, self.count);
     self.ptr = std::ptr::null();
   }
 }
-- 
2.43.0


From 954d8824c82b8201951f8add3d953a9360500a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 13/14] fix: do not abort when an error text contains NUL

---
 keychain-c/src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/keychain-c/src/error.rs b/keychain-c/src/error.rs
index 85c1b4b..a919969 100644
--- a/keychain-c/src/error.rs
+++ b/keychain-c/src/error.rs
@@ -59,11 +59,16 @@ impl ErrorPtr {
   }
 
   pub fn new(err: &RError) -> Self {
-    Self { error_type: Self::error_type(err), message: format!("{}", err).to_cstr() }
+    Self { error_type: Self::error_type(err), message: Self::message(&format!("{}", err)) }
   }
 
   pub fn panic(msg: &str) -> Self {
-    Self { error_type: ErrorType::Panic, message: msg.to_cstr() }
+    Self { error_type: ErrorType::Panic, message: Self::message(msg) }
+  }
+
+  // C string can't have NUL inside, but error text can (it can quote the data)
+  fn message(msg: &str) -> CharPtr {
+    msg.replace('\0', "\u{FFFD}").to_cstr()
   }
 }
 
-- 
2.43.0


From ed8d34e9cf823169cd08a6ae7ec35c64876552d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 14/14] fix: keep the compiler from removing the erasure of
 entropy

In optimised builds the zeroing of a dropped Entropy was removed as a dead
store when its memory was released at once (e.g. a boxed one).
---
 bip39/src/util/securemem.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/bip39/src/util/securemem.rs b/bip39/src/util/securemem.rs
index 61ba866..370465a 100755
--- a/bip39/src/util/securemem.rs
+++ b/bip39/src/util/securemem.rs
@@ -1,12 +1,15 @@
+use std::ptr;
+use std::sync::atomic::{compiler_fence, Ordering};
+
 /// zero the given slice.
 ///
-/// We assume the compiler won't optimise out the call to this function
+/// The writes are volatile, so the compiler can't optimise them out, even if
+/// the memory is not read again before it is released.
 pub fn zero(to_zero: &mut [u8]) {
-  // the unsafety of this call is bounded to the existence of the pointer
-  // and the accuracy of the length of the array.
-  //
-  // since to_zero existence is bound to live at least as long as the call
-  // of this function and that we use the length (in bytes) of the given
-  // slice, this call is safe.
-  unsafe { ::std::ptr::write_bytes(to_zero.as_mut_ptr(), 0, to_zero.len()) }
+  for byte in to_zero.iter_mut() {
+    // this call is safe as `byte` is a valid and unique reference.
+    unsafe { ptr::write_volatile(byte, 0) }
+  }
+  // and the writes can't be moved behind the release of the memory
+  compiler_fence(Ordering::SeqCst);
 }
-- 
2.43.0

