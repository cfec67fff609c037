#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": ("generated entropies vs. reference BIP-39 encoder, round trip", "Sampled over entropy space, all 6 sizes x 8 languages reached in every run; wrong sizes 0..600."),
 "C02": ("grammar-based and mutated phrases vs. reference BIP-39 decoder", "Accept/reject and the reported reason are decided by a reference decoder for every generated phrase; all 65536 index values and all single-word replacements of sampled phrases are enumerated."),
 "C03": ("exhaustive lookup comparison with the published lists, generated non-words", "The 8 x 2048 table is enumerated completely; non-words are sampled."),
 "C04": ("generated phrases x passphrases vs. reference PBKDF2", "Sampled; passphrase lengths cross the HMAC block size."),
 "C05": ("generated seeds and index histories vs. reference BIP-32", "Sampled; keys with leading zero bytes and chains to depth 256 are generated on purpose."),
 "C06": ("round trip and generated corruption vs. reference accept predicate", "Sampled keys; every single-byte position is altered for sampled encodings, checksum-corrected boundary keys are generated."),
 "C07": ("differential: wallet public keys vs. independent derivation over generated seeds, paths, configurations", "Sampled."),
 "C08": ("generated messages and alterations vs. independent verifiers and recovery", "Sampled; all signature lengths and all single-byte changes of sampled signatures."),
 "C09": ("generated path tuples and constructor arguments vs. reference predicate", "Sampled, boundary-biased; keys, signing and verification must agree with the predicate."),
 "C10": ("grammar-based and mutated text vs. reference grammar, round trip", "Sampled."),
 "C11": ("round trip, tampering, and differential against a reference AEAD; recorded random source", "Sampled; operating-system randomness is replaced by a recorded deterministic source, so freshness is decided exactly."),
 "C12": ("stateful model-based operation histories vs. wallet model", "Histories of up to 10 operations over several wallets and managers, sampled."),
 "C13": ("records from an independent writer, structural and byte corruption, independent reader", "Sampled; ambiguous inputs (see DESIGN.md) are not judged."),
 "C14": ("generated phrases vs. reference decoder; bit statistics over thousands of draws; failing random source", "The statistical part has a failure probability below 1e-30 on a correct generator."),
 "C15": ("differential: generated C call sequences vs. the Rust API", "Sampled call sequences over all exported functions with the random source in the same state on both sides."),
 "C16": ("generated C call and delete histories under a recording allocator", "Sampled; each block's layout, double release and leaks are decided exactly for each history; crashes are caught by process isolation."),
 "C17": ("generated network sets with failing plug-ins vs. reference negotiation", "Sampled; selection lists and fault positions generated."),
 "C18": ("generated clone/drop orders, storage inspected after drop", "Sampled; decides the memory of the object itself, not copies a compiler may have made."),
 "C19": ("generated bytes, text and 11-bit sequences vs. reference codec", "Sampled; all lengths up to 64 values."),
 "C20": ("generated operation histories run by several threads at once vs. the same history run alone", "Histories are generated; the interleavings are those the operating system produces for threads started together and repeated in bursts, so a race with a very small window may be missed. Each thread's operating-system randomness is a recorded deterministic source, so results are compared exactly."),
 "C21": ("generated histories handing wallets between the eight builds vs. a reference model and the full build", "All eight selections of networks are built and reached in every run; histories are sampled."),
 "C23": ("differential: generated call histories run by C programs compiled from the generated header, 16 builds linked both ways, vs. the same build driven from Rust", "All 32 programs are built; calls are sampled. The header is taken as the build generates it."),
 "C25": ("the generated cases, histories and oracles of the other properties, run again by a harness and library built for release", "Sampled, a sixth of the cases of each other quick check; every enumerated part in full. Optimisation as cargo's release profile has it (a link-time optimised build was only tried by hand)."),
 "C24": ("round trip and stored form vs. a reference writer; foreign and damaged input vs. a reference reader; differential between the builds with and without the feature", "Sampled. JSON and bincode stand for all serde formats. Reading a phrase that no word list validates is a known finding (KNOWN_FINDINGS.txt)."),
 "C28": ("generated cases and histories of the other properties repeated, with the memory in use compared; generated texts and bytes up to 400 KB with peak memory and processor time against linear bounds", "Sampled. The bounds leave a factor of 5 for memory and about 50 for time, so that only growth out of proportion shows; memory outside the Rust allocator is not counted (the library has none)."),
 "C29": ("the generated cases and histories of the other properties run by a harness and library built with AddressSanitizer, fresh memory filled in two ways", "Sampled, a twelfth of the cases of each other quick check, every enumerated part in full. Accesses within the right block at a wrong place are not seen, nor uninitialised memory on the stack."),
 "C26": ("generated values and near-equal pairs of them, made in different ways, vs. an order and equality of plain bytes and texts; every 16-bit number; round trips of texts and numbers", "Sampled pairs; numbers above 32 bits are not judged (a third-party derive macro cuts them)."),
 "C27": ("the generated cases and histories of the other properties run under a system-call filter that records what is neither memory, lock nor random bytes; interposed environment and clock functions", "Sampled, a twelfth of the cases of each other quick check. Clock reads that bypass libc (own vDSO code, rdtsc) would not be seen."),
 "C22": ("metamorphic: the same refused calls on pairs of generated wallets that differ only in their secrets, comparing everything said; texts checked for what was refused", "Sampled pairs; covers the printed and debug forms, C messages and the process output, not timing or memory."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{
   "property": i,
   "quick_cmd": "./check.sh %s quick" % i,
   "thorough_cmd": "./check.sh %s thorough" % i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": "property-based testing: " + T[i][0],
   "level": "exploration",
   "level_note": T[i][1] + " Trusts the independent reference implementations, which are tested on published vectors at the start of each run, and the compiler.",
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is reached through public items; keychain-c's sources are compiled as an rlib by harness/ckc. `./check.sh replay FILE` runs a violation's minimal case again."
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
