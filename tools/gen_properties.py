#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

p("C01", "Mnemonic phrases are a lossless BIP-39 encoding of entropy",
  "For every entropy of each supported size (96 to 256 bits in steps of 32) and every bundled language, the phrase produced is exactly the one BIP-39 prescribes (word count, word order, checksum bits), and decoding that phrase gives the same entropy back. An entropy of any other size is rejected with an error naming that size. Generating entropy hands the caller's random source exactly the bytes of the requested size and keeps all of them.",
  ["inputs"], "all 2^96..2^256 entropies of 6 sizes x 8 languages; all byte strings of unsupported lengths",
  "The tests run 24+24 fixed vectors for English and Japanese plus one random 12-word case; nothing covers 9, 15 and 21 words or the six other languages, and per-size packing and checksum code can be wrong for almost all values.",
  ["bip39/src/bip39.rs", "bip39/src/util/bits.rs"],
  [("entropy to words: hash appended, read by 11 bits", "bip39/src/bip39.rs Entropy::to_mnemonics / checksum"), ("words to entropy", "bip39/src/bip39.rs Entropy::from_mnemonics"), ("11-bit packing state machine", "bip39/src/util/bits.rs"), ("size table", "bip39/src/bip39.rs Type")],
  observe=["Entropy::from_slice, generate, to_mnemonics, from_mnemonics, checksum", "Mnemonics::to_string / from_string"])

p("C02", "Invalid mnemonic phrases are rejected, never decoded",
  "Recovering entropy from a phrase succeeds only if the phrase has a supported number of words, every word is in the chosen language's list and the checksum matches; otherwise an error says which of these failed and names the offending word, count or checksum values. No text, however malformed, makes phrase handling crash or read outside the word list.",
  ["inputs"], "all strings, all word sequences of any length, all index values 0..65535, for 8 languages",
  "Existing tests only decode valid phrases; the whole rejection side (checksum mismatch for 6 sizes, unknown words, wrong counts, separators, out-of-range indices) is never executed.",
  ["bip39/src/bip39.rs"],
  [("checksum comparison", "bip39/src/bip39.rs Entropy::from_mnemonics"), ("word count check", "bip39/src/bip39.rs Type::from_word_count, Mnemonics::from_mnemonics"), ("dictionary lookup", "bip39/src/bip39.rs DefaultDictionary::lookup_mnemonic / lookup_word"), ("index bound", "bip39/src/bip39.rs MnemonicIndex::new")],
  observe=["Mnemonics::from_string", "MnemonicString::new", "Entropy::from_mnemonics", "Language::lookup_word", "MnemonicIndex::new / from_word / to_word"])

p("C03", "Bundled word lists are the published BIP-39 lists, one-to-one",
  "For each of the eight bundled languages the list of 2048 words is the published BIP-39 list in its published order and normal form, and looking up a word by index and an index by word are inverse to each other. The wallet's language choice selects the list of that language. Lookups in a list of a caller's own go by that list alone, whatever its name and order.",
  ["inputs", "configurations"], "all 8 languages x all 2048 indices (finite, enumerated), and random non-words",
  "Tests look up four English words; a wrong, duplicated or re-normalised word in any list silently yields wallets no other software can restore.",
  ["bip39/src/bip39.rs", "bip39/src/dicts/", "keychain/src/mnemonic.rs"],
  [("word lists", "bip39/src/dicts/*.txt"), ("lookup", "bip39/src/bip39.rs DefaultDictionary"), ("language to list mapping", "keychain/src/mnemonic.rs Language::to_dict")],
  observe=["dictionary::Language::lookup_word / lookup_mnemonic / name / separator", "KeychainManager::generate_mnemonic(language)"])

p("C04", "Seeds are derived from phrase and passphrase as BIP-39 specifies",
  "For every valid phrase in every language and every passphrase (any bytes, any length, including empty), the 64-byte seed equals PBKDF2-HMAC-SHA512 with 2048 rounds over the phrase text with the salt \"mnemonic\" followed by the passphrase. Seeds are accepted from raw bytes only at exactly 64 bytes, unchanged.",
  ["inputs"], "all phrases (6 sizes x 8 languages) x all passphrase byte strings; all raw seeds of any length",
  "48 fixed vectors with two fixed passphrases; nothing varies passphrase length, content or the other six languages.",
  ["bip39/src/bip39.rs"],
  [("seed derivation", "bip39/src/bip39.rs Seed::from_mnemonic_string"), ("length check", "bip39/src/bip39.rs Seed::from_slice")],
  observe=["Seed::from_mnemonic_string, from_slice, from_bytes, as_ref, to_string"])

p("C05", "secp256k1 key derivation is BIP-32",
  "For every seed and every sequence of child indices, hardened or not, the extended private key (private key, chain code, depth, parent fingerprint, child number) and its public key, compressed and uncompressed, are those BIP-32 defines. Derivation past depth 255 fails with an error instead of wrapping.",
  ["inputs", "histories"], "all 64-byte seeds x all index sequences of length 0..255, all u32 indices",
  "secp256k1_bip32 has no tests at all; leading-zero scalars (1 in 256), index boundaries and deep chains need generated input and an independent model.",
  ["secp256k1_bip32/src/private.rs", "secp256k1_bip32/src/public.rs"],
  [("master key", "secp256k1_bip32/src/private.rs XPrv::from_seed"), ("child derivation", "secp256k1_bip32/src/private.rs XPrv::derive"), ("public key encodings", "secp256k1_bip32/src/public.rs XPub::serialize*")],
  observe=["XPrv::from_seed, derive, public, serialize", "XPub::serialize, serialize_compressed, sha256, compressed_sha256"])

p("C06", "Serialized extended private keys round-trip; damaged ones are rejected",
  "Writing an extended private key and reading it back gives a key that writes the same bytes, has the same public key and derives the same children. Input of any other length, with any changed byte, or with a checksum that is right but a key that is zero or not below the curve order, is rejected with an error and never crashes.",
  ["inputs"], "all reachable keys (any seed and path) and all byte strings; all 1-byte and multi-byte corruptions of an encoding",
  "No test covers this crate; checksum coverage of every byte position and key-range boundaries are input-quantified.",
  ["secp256k1_bip32/src/private.rs"],
  [("layout and checksum", "secp256k1_bip32/src/private.rs XPrv::serialize / from_data"), ("key range check", "secp256k1_bip32/src/private.rs XPrv::from_data")],
  observe=["XPrv::serialize", "XPrv::from_data"])

p("C07", "Wallet public keys follow from seed, network and path alone",
  "For every seed or phrase, network and accepted path, the public key a wallet returns is the one an independent implementation derives: BIP-32 over secp256k1 for Bitcoin and Ethereum (65-byte uncompressed), and Cardano's ed25519 scheme (64 bytes, key followed by chain code) with its master key computed from the seed. It does not depend on the password, the stored form, which other networks are present, or earlier calls.",
  ["inputs", "configurations"], "all 64-byte seeds and all 12-word (Cardano-only: 9-word) phrases x 3 networks x all accepted paths x any enabled network subset",
  "The keychain crate has no tests; a wrong derivation step for one network, account or index range loses funds and only a differential oracle over the path space sees it.",
  ["keychain/src/networks/", "keychain/src/keychain.rs", "keychain/src/manager.rs"],
  [("root key from seed", "keychain/src/networks/*/key.rs Key::data_from_seed"), ("path walk", "keychain/src/networks/*/key.rs Key::from_data, derive_private"), ("network dispatch", "keychain/src/keychain.rs Keychain::_pk")],
  observe=["KeychainManager::keychain_data_from_seed / keychain_data_from_mnemonic / keychain_from_data", "Keychain::pub_key"])

p("C08", "Signatures verify, bind data and key, and match independent verifiers",
  "For every network, accepted path and message, the signature a wallet returns verifies through the same wallet and path, and an independent verifier accepts it for the returned public key: ECDSA over Keccak-256 in low-s form with a recovery byte that recovers that key for Bitcoin and Ethereum, Ed25519 for Cardano; what an independent signer signs with the same key verifies, and with any other key of the wallet does not. Verification returns false for any other message, path or altered signature, an error for a signature of an impossible length, and never crashes; for Bitcoin and Ethereum both the 65-byte output of signing and its 64-byte form without the recovery byte verify, and a wrong recovery byte does not.",
  ["inputs"], "all keys x all messages (0..64 KiB generated) x all signature byte strings, incl. every length and single-byte change",
  "No test signs anything. Sign and verify are separate code that must agree for every key, message length and signature length.",
  ["secp256k1_bip32/src/private.rs", "secp256k1_bip32/src/public.rs", "keychain/src/networks/"],
  [("ECDSA sign", "secp256k1_bip32/src/private.rs XPrv::sign"), ("ECDSA verify", "secp256k1_bip32/src/public.rs XPub::verify"), ("Ed25519 sign/verify", "keychain/src/networks/cardano/key.rs")],
  observe=["Keychain::sign, verify, pub_key", "XPrv::sign", "XPub::verify"])

p("C09", "Only paths valid for the network give keys, signatures or verification",
  "A wallet accepts a path exactly when its coin is the network's, its purpose is BIP-44's (any purpose for Bitcoin), its account is hardened, its change is 0 or 1 and its address index is not hardened; public key, sign and verify agree on this and otherwise fail with an error naming the offending component's value. The per-network path constructors accept exactly account and address indices below 2^31 and change 0 or 1, produce the hardened purpose, coin and account of their standard (44', 49', 84'; testnet coin 1'; MetaMask-style address indexing), and report the value they reject.",
  ["inputs"], "all 5-tuples of u32 (boundary-biased) x 3 networks; all constructor arguments",
  "No test exercises a path; acceptance is a predicate over 2^160 tuples with boundaries at 2^31 in three places per network.",
  ["keychain/src/networks/bitcoin/key_path.rs", "keychain/src/networks/cardano/key_path.rs", "keychain/src/networks/ethereum/key_path.rs", "keychain/src/networks/*/key.rs"],
  [("constructors", "keychain/src/networks/*/key_path.rs"), ("path guard", "keychain/src/networks/*/key.rs derive_private")],
  observe=["networks::{bitcoin,cardano,ethereum}::KeyPath constructors", "Keychain::pub_key / sign / verify"])

p("C10", "Key path text parses and prints faithfully and never crashes",
  "Every path of five numbers prints as m/a/b/c/d/e with ' marking hardened numbers, and parsing that text gives the same five numbers back; spaces around parts are ignored. Text without exactly six parts, without the leading m, or with a part that is empty, not a decimal number or too large (a hardened number of 2^31 or more included) is rejected with an error. No text crashes the parser or yields a different path than it spells.",
  ["inputs"], "all u32^5 and all Unicode strings (grammar-aware and mutated)",
  "No test parses a path; hostile text (multi-byte characters, overflowing numbers, odd markers) is unbounded.",
  ["keychain/src/key_path.rs"],
  [("parser", "keychain/src/key_path.rs GenericKeyPath::from"), ("hardened numbers", "keychain/src/key_path.rs hard_int/soft_int"), ("printer", "keychain/src/key_path.rs print_int")],
  observe=["GenericKeyPath::from / to_string and the KeyPath accessors"])

p("C11", "Password encryption round-trips, authenticates and is freshly salted",
  "Decrypting encrypted data with the same password returns exactly the data, for every data and password; any other password (passwords that only differ in trailing NUL characters are one key to PBKDF2-HMAC and count as the same), and any changed, removed or added byte, gives an error and no data. The encrypted form is 32 bytes salt, 12 bytes nonce, 16 bytes tag and the ciphertext under ChaCha20-Poly1305 with a PBKDF2-HMAC-SHA512 (19162 rounds) key, readable and writable by an independent implementation. All salt and nonce bytes are fresh draws from the random source for every encryption.",
  ["inputs", "histories"], "all data x all passwords (any UTF-8, any length) x all single-byte changes, truncations and extensions; sequences of encryptions",
  "There are no tests of encryption; integrity and freshness quantify over all tamperings and all histories.",
  ["keychain/src/crypt.rs", "keychain/src/entropy.rs"],
  [("encrypt", "keychain/src/crypt.rs encrypt"), ("decrypt", "keychain/src/crypt.rs decrypt"), ("random source", "keychain/src/entropy.rs OsEntropy")],
  observe=["crypt::encrypt / decrypt", "the blobs returned by KeychainManager"])

p("C12", "Wallets keep their keys through any history of operations",
  "Over any sequence of creating (from seed or phrase), opening, changing the password, adding networks and backing up, by managers with any set of networks, each wallet behaves as a simple model: it opens only with its current password, offers exactly the stored networks the opening manager supports, and the keys of a network never change nor disappear, also for networks the manager does not support. Operations that must fail (wrong password, invalid seed or phrase, unsupported or already present network, no saved phrase) fail with the matching error and leave every earlier blob usable.",
  ["histories", "configurations", "inputs"], "all operation sequences (generated up to 10 steps) over several wallets, managers with any built-in and custom networks, right and wrong arguments",
  "The manager has no tests; the guarantee is about histories (e.g. add a network after two password changes through a manager with fewer networks), not single calls.",
  ["keychain/src/manager.rs", "keychain/src/data.rs", "keychain/src/keychain.rs"],
  [("create", "keychain/src/manager.rs new_keychain_data"), ("open", "keychain/src/manager.rs keychain_from_data"), ("re-encrypt", "keychain/src/manager.rs change_password"), ("add network", "keychain/src/manager.rs add_network"), ("backup", "keychain/src/manager.rs retrieve_mnemonic, get_keys_data")],
  state=[dict(name="wallet record", meaning="seed or phrase+language, and key data per network", where="keychain/src/data.rs WalletDataV2")],
  observe=["every public KeychainManager and Keychain method"])

p("C13", "Stored wallet format is stable; malformed content is refused cleanly",
  "Wallets written by an independent writer of the stored format, in version 1 and version 2, with any mix of networks, open with their keys, phrase and seed intact (a version 1 wallet has keys only), and wallets written by this library decode with an independent reader to exactly the seed or phrase, language and per-network keys given. Content that decrypts but is not a well-formed wallet, or whose key data is damaged or of the wrong length for its network, gives an error, never a crash and never a wallet with other keys.",
  ["inputs"], "all well-formed version 1/2 records and generated structural, byte-level and key-data corruptions of them",
  "No stored fixture exists in the tests, so format drift and crashes on damaged content go unseen.",
  ["keychain/src/data.rs", "keychain/src/manager.rs", "keychain/src/networks/"],
  [("versioned envelope", "keychain/src/data.rs VersionedData"), ("key map encoding", "keychain/src/data.rs serialize"), ("V1 migration", "keychain/src/data.rs WalletDataV2::from_v1"), ("key data validation", "keychain/src/networks/*/key.rs from_data")],
  observe=["KeychainManager::keychain_from_data, add_network, retrieve_mnemonic, get_keys_data, keychain_data_from_*"])

p("C14", "Generated phrases are valid, in the asked language and unpredictable",
  "Every generated phrase is a valid BIP-39 phrase, checksum included, of the manager's size in the requested language (English by default), and the same manager can create a wallet from it. The entropy behind generated phrases is fully random, drawn anew from the operating system's random source for every phrase: every bit varies independently, no phrase repeats, and if the source fails no phrase is produced.",
  ["inputs", "histories", "configurations"], "all calls over all languages and manager configurations; statistical over thousands of draws",
  "No test generates a phrase through the manager; randomness of every bit is a property of the distribution, not of one output.",
  ["keychain/src/manager.rs", "keychain/src/mnemonic.rs", "keychain/src/entropy.rs"],
  [("generation", "keychain/src/mnemonic.rs generate_entropy, mnemonic_from_entropy"), ("size choice", "keychain/src/manager.rs generate_mnemonic"), ("random source", "keychain/src/entropy.rs")],
  observe=["KeychainManager::generate_mnemonic", "bip39::Entropy::generate"])

p("C15", "The C interface gives the same results and errors as the library",
  "For every sequence of C calls with valid arguments, the boolean result, output values and error code and message are those of the corresponding library operation: on success the output is set and the error untouched, on failure the error is set and the output untouched. A password or text that is not UTF-8, or a deleted handle, gives an error result, not a crash.",
  ["inputs", "histories"], "generated call sequences over all exported functions, valid and failing arguments",
  "keychain-c has no tests; argument order, enum mapping and error mapping are per-function and only visible across the boundary.",
  ["keychain-c/src/"],
  [("call wrappers", "keychain-c/src/manager.rs, keychain_c.rs, backup.rs"), ("error mapping", "keychain-c/src/error.rs"), ("enum mapping", "keychain-c/src/manager.rs Language"), ("result protocol", "keychain-c/src/utils/result.rs, panic.rs")],
  observe=["all extern C functions"])

p("C16", "The C interface never leaks, double-frees or aborts",
  "Over any sequence of C calls in which the caller deletes what it received, all memory handed out is released exactly once, as it was allocated, and none leaks; deleting something already deleted, or empty, does nothing. No call with valid pointers, an empty buffer passed as null with length zero included, ends the process, whatever the content of the data: failures come back as error results.",
  ["histories", "inputs"], "generated call/delete sequences, hostile buffers, texts and stored content",
  "Tests never cross the C boundary; ownership is about all call and delete orders.",
  ["keychain-c/src/"],
  [("ownership transfer", "keychain-c/src/utils/data.rs, string.rs, network.rs, backup.rs"), ("handle lifetime", "keychain-c/src/manager.rs, keychain_c.rs"), ("panic barrier", "keychain-c/src/utils/panic.rs, error.rs")],
  observe=["all extern C functions and delete_* functions, through an allocator that records every allocation and its layout"])

p("C17", "A manager's phrase size suits all its networks; plug-ins get their data",
  "A manager whose networks each accept a range starting at a phrase size can be created exactly when it has at least one network and some phrase size lies in every range; it then uses the smallest such size for generated phrases and accepts only phrases of that size. Selecting networks enables exactly the selected ones that exist. Custom network implementations are given the wallet's 64-byte seed to make key data and later their own key data only, and their failures surface as errors naming their network without affecting other wallets.",
  ["configurations", "inputs", "fault_sequences"], "all sets of up to 6 networks with arbitrary ranges, any requested network list, plug-ins failing at any call",
  "No test builds a manager; the negotiation is a fold over arbitrary ranges and plug-in failures need injection.",
  ["keychain/src/manager.rs", "keychain/src/key_factory.rs", "keychain/src/networks/mod.rs", "keychain/src/mnemonic.rs"],
  [("size negotiation", "keychain/src/manager.rs calculate_seed_size"), ("network selection", "keychain/src/manager.rs with_networks / with_factories"), ("phrase length guard", "keychain/src/mnemonic.rs seed_from_mnemonic"), ("plug-in calls", "keychain/src/manager.rs new_keychain_data, add_network, keychain_from_data")],
  observe=["KeychainManager::new / with_networks / with_factories / has_network / get_key_factory"])

p("C18", "Secrets in seed and entropy objects are erased when dropped",
  "When a seed or an entropy object of any size goes away, the memory that held its secret bytes is overwritten with zeros, in development and in optimised builds; until then the object keeps its value unchanged, and copies are independent of each other.",
  ["inputs", "histories"], "all seeds, all entropies of the 6 sizes, in any order of cloning and dropping",
  "No test looks at memory after drop; per-size code means one size can be forgotten.",
  ["bip39/src/bip39.rs", "bip39/src/util/securemem.rs"],
  [("drop erasure", "bip39/src/bip39.rs impl Drop for Entropy / Seed"), ("zeroing", "bip39/src/util/securemem.rs zero")],
  observe=["object storage after drop_in_place"])

p("C19", "Hex text and 11-bit packing are exact inverses",
  "Encoding any bytes as hexadecimal gives two lower-case digits per byte and decoding returns the bytes; decoding ignores letter case and blanks and reports the byte position of the first foreign character, for any text. Writing any sequence of 11-bit values and reading them back gives the same sequence, packed most significant bit first with zero padding, and the reader's count of remaining whole values is right at every position.",
  ["inputs", "histories"], "all byte strings, all Unicode strings with an even number of digits, all sequences of 11-bit values",
  "Two fixed hex vectors and one fixed 16-value read; the writer and the size count are untested, and 8 packing states interact with every length.",
  ["bip39/src/util/hex.rs", "bip39/src/util/bits.rs"],
  [("hex", "bip39/src/util/hex.rs encode / decode"), ("bit reader and writer", "bip39/src/util/bits.rs")],
  observe=["util::hex::encode/decode", "util::bits::BitWriterBy11/BitReaderBy11", "Display of Seed and Entropy"])

p("C20", "Wallets used from several threads at once behave as when used alone",
  "Threads that each work with managers, wallets, phrases, keys and C handles of their own get, for every operation and under every interleaving, the result the same operations give when that thread runs alone. A failure in one thread - an error, or a custom network or caller that panics - changes nothing for the others, and nothing ever deadlocks.",
  ["schedules", "histories"], "all groups of operation sequences run by 2 to 8 threads at once, with failing and panicking custom networks among them",
  "The tests use no threads of their own and share no state between cases; whether anything process-wide (random source, word lists, key contexts, the C layer) leaks from one into another is about interleavings.",
  ["keychain/src/", "keychain-c/src/", "bip39/src/", "secp256k1_bip32/src/"],
  [("random source under a lock, owned by the manager", "keychain/src/entropy.rs"), ("no state outside managers, wallets and keys", "keychain/src/manager.rs, keychain.rs, networks/"), ("panic barrier", "keychain-c/src/utils/panic.rs")],
  observe=["all public operations of KeychainManager, Keychain, bip39, and the C functions, each thread on objects of its own"])

p("C21", "A library built for fewer networks behaves the same for the ones it has",
  "A library built for any selection of networks offers exactly those networks, and for each of them gives the same phrases, keys and signatures as the build with all. Wallets pass between such builds in any order of opening, storing, password changes and network additions without losing or changing key data, also that of networks the build at hand does not know; a network that is not built in is reported as not supported.",
  ["configurations", "histories"], "the 8 selections of the 3 built-in networks, and all histories of operations handing stored wallets from build to build",
  "The tests are only ever run with all networks built in; code left out by a selection, and records of networks the build does not know, are never exercised.",
  ["keychain/src/networks/mod.rs", "keychain/src/manager.rs", "keychain/src/keychain.rs", "keychain/Cargo.toml"],
  [("selection of networks", "keychain/src/networks/mod.rs all(), cfg(feature)"), ("stored records of unknown networks", "keychain/src/manager.rs keychain_from_data, add_network"), ("selection of dependencies", "keychain/src/lib.rs, keychain/Cargo.toml [features]")],
  observe=["a program built eight times, once per selection of networks"])

p("C22", "Errors name what was refused and never depend on secrets",
  "When a call is refused, the error - its Rust Display and Debug text, the C error code and message - names what was refused: the network, the given and expected sizes or word counts, the unknown word, the path value or its place in the text. Beyond that neither the error nor anything the library prints depends on secrets: for two well-formed wallets (or inputs) that differ only in password, seed, phrase or key bytes, the same refused call says exactly the same.",
  ["inputs", "histories", "pairs of executions"], "all refused calls on pairs of wallets of one shape with unrelated secrets, through Rust and C; damaged key data; phrases with an unknown word; path texts with one fault",
  "No test reads an error's text, and that it carries nothing of the secrets is a statement about pairs of runs, which a test with fixed values cannot make.",
  ["keychain/src/", "keychain-c/src/error.rs", "bip39/src/bip39.rs", "secp256k1_bip32/src/error.rs"],
  [("error texts", "keychain/src/error.rs, key.rs, key_path.rs; bip39/src/bip39.rs; secp256k1_bip32/src/error.rs"), ("error mapping", "keychain-c/src/error.rs"), ("size negotiation error", "keychain/src/manager.rs")],
  observe=["Display and Debug of returned errors", "C error code and message", "standard output and error of the process"])

p("C23", "C programs using the generated header get the library's results in every build",
  "For every selection of networks, with or without the backup functions, a C program compiled against the header generated by that build and linked with the static or the dynamic library finds every function the header declares, and every call gives it, field by field under the header's names, the values, error kinds and messages the same build gives from Rust. Calls write their output on success only and the error on failure only, leave the caller's buffers alone, and what has been deleted is marked so that deleting it again does nothing.",
  ["configurations", "histories"], "16 builds x 2 kinds of linking; all sequences of calls, paths, texts and wallets handed between programs",
  "No test compiles C code; the header, the layouts behind it and the functions and conversions compiled only for some selections are never exercised.",
  ["keychain-c/src/", "keychain-c/Cargo.toml", "keychain/src/networks/mod.rs"],
  [("exported functions and their selection", "keychain-c/src/lib.rs cfg(feature), no_mangle functions"), ("structures shared with C", "keychain-c/src/*.rs repr(C)"), ("error kinds", "keychain-c/src/error.rs")],
  observe=["answers of a C program compiled 32 times (16 builds, static and dynamic)", "the compiler's and linker's acceptance of the header"])

p("C24", "Optional serialization keeps every value and changes nothing else",
  "With bip39's generic-serialization feature, every phrase, phrase type, unknown-word error and hex error written in any serde format is read back equal, alone or inside other values, from a text, a stream or a value, however the text is spelled; the written form is fixed - the phrase's text, the type's name (or position), the error's name with its word or position - so that what one build has stored another can read. Anything else is refused with an error, and a phrase is only obtained from text some word list validates. All other operations give what they give without the feature.",
  ["inputs", "configurations"], "all values of the four types, all languages and sizes, any JSON or bytes read as any of the types; builds with and without the feature",
  "The feature is off in every test build; the code behind it is only ever compiled.",
  ["bip39/src/bip39.rs", "bip39/src/util/hex.rs", "bip39/src/lib.rs", "bip39/Cargo.toml"],
  [("derived forms", "bip39/src/bip39.rs MnemonicString, Type, dictionary::Error; bip39/src/util/hex.rs Error: cfg_attr(feature = \"generic-serialization\")"), ("validated phrase", "bip39/src/bip39.rs MnemonicString::new")],
  observe=["JSON (5 ways of writing and reading) and bincode, by a program built with the feature", "all bip39 operations in both builds"])

p("C25", "Released builds keep every promise that development builds keep",
  "Built optimised, without overflow checks and debug assertions, the library does for every input what the other properties say: the same phrases, seeds, keys, signatures, stored wallets, refusals and error texts through Rust and C, and secrets are erased as well. No check, effect or limit depends on the build profile.",
  ["configurations", "inputs", "histories"], "all inputs and histories of the other properties, in a release build",
  "Tests run in development builds only, where arithmetic is checked, debug assertions are evaluated and nothing is optimised away.",
  ["bip39/src/", "secp256k1_bip32/src/", "keychain/src/", "keychain-c/src/"],
  [("erasure the optimiser may remove", "bip39/src/util/securemem.rs, impl Drop for Entropy / Seed"), ("arithmetic", "secp256k1_bip32/src/private.rs derive, keychain/src/key_path.rs, bip39/src/util/bits.rs"), ("debug_assert", "bip39/src/bip39.rs to_mnemonics")],
  observe=["everything the other checks observe, in a harness and library built with --release"])

p("C26", "Values compare, order, copy and print as what they hold",
  "Two seeds, entropies, phrases, word numbers, phrase types, networks, languages or errors are equal exactly when they hold the same content, whatever way each was made (drawn, read, decoded, copied, converted); a copy equals its original and stays so after the original is gone. Sorting and ordered sets go by size and content: entropies by size and bytes, phrases by text, types by words, networks by number. Printing a seed or entropy shows exactly its bytes in hex, a phrase its text, a type its words. Phrase types, languages and networks convert to and from their numbers and texts one to one, and every other number (within 32 bits) or text is refused. The default type has 18 words, the default language is English.",
  ["inputs"], "all values and pairs of values, near-equal pairs in particular; all 16-bit numbers",
  "Tests compare values that are equal, or far apart, when they compare any.",
  ["bip39/src/bip39.rs", "keychain/src/network.rs", "keychain/src/language.rs", "keychain/src/error.rs", "keychain/src/key_path.rs"],
  [("equality and order", "bip39/src/bip39.rs impl PartialEq for Seed, derives of Entropy, Type, MnemonicIndex, Mnemonics, MnemonicString; keychain/src/network.rs"), ("printing", "bip39/src/bip39.rs impl Debug / Display"), ("conversions", "bip39/src/bip39.rs Type::from_word_count, from_entropy_size, ToPrimitive / FromPrimitive; keychain/src/language.rs; keychain/src/network.rs")],
  observe=["==, !=, cmp, partial_cmp, sets and sorting", "Debug, Display, LowerHex", "FromStr, from_*, to_*"])

p("C27", "Calls ask nothing of the outside but memory and random bytes",
  "Whatever the arguments and the history, refused calls and failing plug-ins included, no call reads or changes anything outside its own memory: no file or socket is opened, nothing is written, no thread or process started, neither the environment nor the clock read, and process-wide settings such as the hook for panics stay as they were (keychain_init_library's own hook apart). So results depend on nothing but the arguments, the stored data and the system's random source.",
  ["inputs", "histories", "effects"], "all inputs and histories of the other properties",
  "Tests look at results only; an effect on the outside, or a result that depends on it, shows in none of them.",
  ["bip39/src/", "secp256k1_bip32/src/", "keychain/src/", "keychain-c/src/"],
  [("every public operation", "bip39/src/lib.rs, secp256k1_bip32/src/lib.rs, keychain/src/lib.rs, keychain-c/src/lib.rs"), ("random source", "bip39/src/bip39.rs Entropy::generate; keychain/src/manager.rs"), ("panics", "keychain-c/src/utils/panic.rs")],
  observe=["system calls (seccomp filter that records all but memory, locks and random bytes)", "getenv, setenv, clock_gettime and time", "the panic hook"])

p("C28", "Calls give their memory back and cost no more than their input warrants",
  "Once their results are released or deleted, calls through Rust and C, refused and failing ones included, leave no memory taken: repeating the same calls, or making ever new ones on the same manager, wallet or word list, does not let memory grow. The memory and processor time a call takes grows at most in proportion to the size of what it is given - texts, messages, passwords, stored data, hostile ones included - on top of the fixed cost of stretching a password.",
  ["inputs", "histories", "resources"], "all inputs and histories of the other properties; texts and bytes of any shape to hundreds of kilobytes",
  "Tests never look at memory or time, and their inputs are short.",
  ["bip39/src/", "secp256k1_bip32/src/", "keychain/src/", "keychain-c/src/"],
  [("path parser", "keychain/src/key_path.rs GenericKeyPath::from"), ("password stretching", "keychain/src/crypt.rs"), ("state kept by a manager", "keychain/src/manager.rs, keychain/src/entropy.rs"), ("phrases and word lists", "bip39/src/bip39.rs"), ("results handed to C", "keychain-c/src/utils/")],
  observe=["bytes allocated and not released, and their maximum during a call", "processor time of the calling thread"])

p("C29", "Only memory that belongs to the call is touched",
  "Whatever the arguments and the history, through Rust and C, no call reads or writes outside its arguments, its results and what the library itself has allocated and not yet released; not even when that would not change the result. Nothing depends on what memory held before it was allocated, a value once released or deleted is not looked at again, and no call ends the process.",
  ["inputs", "histories"], "all inputs and histories of the other properties, every buffer with forbidden memory on both sides",
  "Reading past the end of a buffer or after its release mostly goes unnoticed: tests pass until the memory happens to be unmapped or secret.",
  ["bip39/src/util/", "bip39/src/bip39.rs", "keychain-c/src/", "keychain/src/crypt.rs"],
  [("unchecked code", "bip39/src/util/hex.rs encode, bip39/src/util/securemem.rs"), ("raw pointers from and to C", "keychain-c/src/utils/, keychain-c/src/manager.rs, keychain_c.rs, backup.rs, network.rs, error.rs")],
  observe=["reports of AddressSanitizer", "answers with fresh memory filled in two ways", "the process's end"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
