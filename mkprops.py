#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Key generation computes the key pair the specification defines",
  "For each of the 12 parameter sets and every 3n-byte seed delivered by the random source, key generation succeeds and the private key is exactly the seed followed by the public seed's root, i.e. SK.seed || SK.prf || PK.seed || PK.root with PK.root the root of the top SPHINCS+ Merkle tree. If a public-key buffer is passed it receives PK.seed || PK.root; passing no public-key buffer gives the same private key. Exactly the documented number of bytes of each buffer is written.",
  ["inputs", "configurations"], "all parameter sets x all seeds x with/without public key buffer",
  "One fixed seed (00 01 02 ...) per parameter set is compared with a known public key; nothing looks at the private key bytes, at the missing-public-key variant or at other seeds.",
  ["key_gen.c", "tiny_sphincs.c", "tiny_sphincs.h", "size.c"],
  [("key generation dummies up a signing context and folds one authentication path", "key_gen.c:ts_gen_key"), ("running root kept while generating a path", "tiny_sphincs.c:ts_merkle_path"), ("Merkle leaf = WOTS+ public key", "tiny_sphincs.c:ts_wots_leaf")],
  [("auth_path_buffer", "node on the path to leaf 0; root at the end", "tiny_sphincs.h")],
  ["ts_gen_key return value and both key buffers"])

p("C02", "Signature bytes equal the SPHINCS+ specification's signature",
  "For every parameter set, private key, message and randomizer, the concatenation of the bytes produced by the signer is exactly the signature the SPHINCS+ specification (NIST draft, simple variant) defines: R, the FORS signature, then one WOTS+ signature and authentication path per hypertree layer. With no random source the randomizer is the public seed.",
  ["inputs"], "all parameter sets x private keys x messages x randomizers",
  "Twelve known-answer signatures of the single message \"abc\" are hashed and compared; the deterministic mode and every other message, key, digest, FORS index and leaf position are never compared with anything but the code itself.",
  ["tiny_sphincs.c", "sha256_hash.c", "sha256_L1_hash.c", "sha256_L1_hash_simple.c", "sha512_hash.c", "sha512_L35_hash_simple.c", "sha2_simple.c", "shake256_hash.c", "shake256_simple.c", "sha2_128f_simple.c", "shake256_128f_simple.c"],
  [("signing state machine", "tiny_sphincs.c:ts_sign"), ("address setters", "tiny_sphincs.c:ts_set_*_adr"), ("digest to position conversion", "tiny_sphincs.c:ts_convert_message_hash_to_hypertree_position"), ("WOTS+ digits and checksum", "tiny_sphincs.c:compute_wots_digits")],
  [("state", "which part of the signature is being generated", "tiny_sphincs.h"), ("adr", "hash address", "tiny_sphincs.h")],
  ["bytes returned by ts_sign"])

p("C03", "Signature streaming: chunk sizes never change the bytes or the counts",
  "A signature requested in pieces of any sizes, including zero-length and oversized requests, concatenates to the same byte string as one requested in a single call. Each request for k bytes returns exactly min(k, bytes remaining) and stores exactly that many bytes; after the last byte every further request returns 0 and stores nothing.",
  ["histories", "inputs"], "all sequences of request sizes over one signing operation",
  "Tests use one 42-byte chunking and one single-call signature per parameter set, out of 2^(L-1) possible splittings; return counts at the end and after it are checked for neither.",
  ["tiny_sphincs.c", "tiny_sphincs.h"],
  [("drain buffered hash, then advance the state machine", "tiny_sphincs.c:ts_sign")],
  [("buffer/buffer_offset", "the n-byte element being handed out and how much of it was", "tiny_sphincs.h"), ("state", "position in the signature", "tiny_sphincs.h")],
  ["ts_sign return value and destination buffer"])

p("C04", "Every genuine signature verifies, however it is split",
  "A signature produced by the signer for a key pair and message is accepted by the verifier given the matching public key and the same message, for every way of cutting the signature into consecutive pieces, including single bytes and zero-length pieces. Every piece is reported as good so far and the final verdict is success.",
  ["inputs", "histories"], "all parameter sets x key/message/randomizer x all splittings of the signature",
  "One message and one key per set; splittings are only fixed-size Fibonacci chunks for 7 of the 12 sets; FORS/leaf positions other than the one drawn are never exercised.",
  ["verify.c", "tiny_sphincs.c"],
  [("verify state machine", "verify.c:ts_update_verify"), ("final verdict", "verify.c:ts_verify"), ("authentication path folding", "verify.c:next_auth_path")],
  [("buffer/buffer_offset", "bytes of the current element received so far", "tiny_sphincs.h"), ("state", "which element is expected next", "tiny_sphincs.h")],
  ["ts_update_verify and ts_verify return values"])

p("C05", "Anything but the genuine triple is rejected",
  "The verifier accepts a (public key, message, signature) triple exactly when the SPHINCS+ specification's verification accepts it: altering any bit of the signature, of either half of the public key, or of the message, exchanging, zeroing or splicing signature elements, or using another key or parameter set makes the final verdict failure.",
  ["inputs"], "all modifications of signature, public key, message or parameter set",
  "Tests flip bit 0 of every fifth signature byte of 7 sets and try one wrong message; the public key is never altered and positions/values in between are sampled.",
  ["verify.c", "tiny_sphincs.c", "sha256_L1_hash.c", "sha512_hash.c", "shake256_hash.c"],
  [("root comparison", "verify.c:my_memcmp"), ("verify state machine", "verify.c:ts_update_verify"), ("message hash binds R, public key and message", "sha256_L1_hash.c, sha512_hash.c, shake256_hash.c: *_hash_msg")],
  [("auth_path_buffer", "recomputed node, finally the root", "tiny_sphincs.h")],
  ["ts_verify return value"])

p("C06", "Verdict is success only at exactly the full length, and failure is final",
  "During verification the final verdict is success only when exactly the full signature length has been fed and everything matched: at every shorter length it is failure, one or more surplus bytes (in the same call or any later one) make it failure, and once it has become unable to succeed no further input makes it succeed again. Zero-length pieces and asking for the verdict early change nothing, and ignoring a reported intermediate failure never turns into success.",
  ["histories", "inputs"], "all sequences of feed/verdict operations, valid or corrupted, shorter or longer than the signature",
  "Tests try length-1 and length+1 in a single call; surplus bytes in later calls, early verdicts, continuing after a failure and zero-length pieces are untested.",
  ["verify.c"],
  [("success only when the last byte ended the call", "verify.c:ts_update_verify"), ("verdict needs an empty partial buffer", "verify.c:ts_verify")],
  [("state", "success/fail end states", "tiny_sphincs.h"), ("buffer_offset", "surplus bytes after success", "tiny_sphincs.h")],
  ["ts_verify and ts_update_verify return values"])

p("C07", "Results depend only on the inputs, not on residue, history or placement",
  "Key generation, signing and verification give results determined only by the bytes of their inputs: the previous content of the context (uninitialised garbage, or an operation of either kind abandoned at any point, finished or failed), the content of the stack, earlier calls, and the address or alignment of any buffer have no effect. Starting a new operation on a used context therefore behaves like on a fresh one.",
  ["histories", "inputs"], "all prior context contents reachable by operation histories (and garbage patterns) x buffer placements x following operation",
  "Verify tests pre-fill the context with a few byte patterns, signing uses whatever is on the stack; re-use after abandoned or finished operations and misaligned buffers are untested.",
  ["tiny_sphincs.c", "verify.c", "key_gen.c", "sha256_hash.c", "sha512_hash.c"],
  [("initialisation sets every field later read", "tiny_sphincs.c:ts_init_sign, verify.c:ts_init_verify")],
  [("struct ts_context", "all state of one operation", "tiny_sphincs.h")],
  ["signature bytes, key bytes, verdicts"])

p("C08", "Calls that do not fit the context's operation are harmless",
  "Asking a context that is verifying (or has finished verifying) for signature bytes returns 0 and writes nothing; feeding signature bytes to a context that is signing (or has finished signing) returns 0, and asking it for a verdict returns 0. Such calls, at any point of the operation and in any number, do not change what the operation in progress subsequently produces; on a merely zero-filled context every such call returns 0.",
  ["histories"], "all interleavings of matching and mismatching calls at every position of a signing or verifying operation",
  "No test ever makes a mismatching call.",
  ["tiny_sphincs.c", "verify.c"],
  [("state range guard in the signer", "tiny_sphincs.c:ts_sign"), ("state range guard in the verifier", "verify.c:ts_update_verify"), ("verdict requires the success state", "verify.c:ts_verify")],
  [("state", "signing states and verifying states are disjoint ranges", "tiny_sphincs.h")],
  ["return values, destination buffer, subsequent signature bytes/verdict"])

p("C09", "Operations on different contexts never interfere",
  "Any number of key generations, signings and verifications, of the same or different parameter sets, may be in progress at the same time on different contexts - interleaved call by call, nested from inside the caller-supplied random function, or running in concurrent threads preempted at any point - and each gives exactly the result it gives when run alone.",
  ["schedules", "histories"], "all interleavings of the calls (and of the execution) of several operations on distinct contexts",
  "The only interleaving tested is one signer and one verifier of the same set alternating 42-byte chunks in one thread; nothing runs two signers, mixed sets, nested calls or threads.",
  ["tiny_sphincs.c", "verify.c", "key_gen.c", "sha256.c", "sha512.c", "fips202.c"],
  [("all state lives in the caller's context or on the stack", "tiny_sphincs.h:struct ts_context")],
  [("struct ts_context", "only mutable state", "tiny_sphincs.h")],
  ["signature bytes, keys, verdicts of each operation"])

p("C10", "Memory accesses stay inside what the caller handed over",
  "No operation reads or writes outside the context, its own stack, constant tables and the exact extents of the buffers it was given (message, chunk, requested k bytes, the 4n-byte private key, the 2n-byte public key); in particular verification never touches memory around the public key. Message, signature chunks and key buffers given as input are never modified.",
  ["inputs", "histories", "configurations"], "all parameter sets, build configurations, message lengths, chunkings and accept/reject paths",
  "Tests run without any bounds oracle: an over-read of the key next to the public key, or a write one byte past a chunk, goes unnoticed.",
  ["tiny_sphincs.c", "verify.c", "key_gen.c", "sha256.c", "sha512.c", "fips202.c", "tiny_sphincs.h", "internal.h"],
  [("private parts at negative offsets from the public key pointer", "internal.h:CONVERT_PUBLIC_KEY_*"), ("array sizing from the tune settings", "tiny_sphincs.h:TS_MAX_*")],
  [("struct ts_context arrays", "sized by tune settings", "tiny_sphincs.h")],
  ["addresses of all loads and stores"])

p("C11", "Random source: used as documented, and its failure is handled",
  "Key generation and signing call the random function only during the key generation or signing-start call, and ask in total for exactly 3n and n bytes respectively, in place of which they use nothing else. Key generation returns 0 if the source is missing or reports failure (whatever it wrote before), and 1 otherwise; signing with a missing or failing source produces exactly the deterministic signature, and with a working source uses exactly the bytes delivered.",
  ["fault_sequences", "inputs"], "all outcomes of the random source: absent, failure at any point with any partial output, success with any bytes",
  "Tests only use sources that succeed (or none, without comparing the result); failure is never injected.",
  ["key_gen.c", "tiny_sphincs.c"],
  [("argument and failure checks", "key_gen.c:ts_gen_key"), ("fallback to the default randomizer", "tiny_sphincs.c:ts_init_sign")],
  [], ["requests seen by the random function, return value of ts_gen_key, first n signature bytes"])

p("C12", "Every build configuration gives the same results",
  "For every combination of the tuning settings (hash families, security levels, small/fast sets, SHA-2 precomputation on/off, the three SHAKE implementations) the package builds, and every parameter set that the combination enables generates the same keys, the same signatures and the same verdicts as in any other combination.",
  ["configurations"], "all combinations of the seven tuning settings x parameter sets enabled by them",
  "The test suite is built in five configurations, all with every parameter set enabled; the reduced configurations (one family, no L5, no S) that shrink arrays and address layout are never run.",
  ["tune.h", "tiny_sphincs.h", "internal.h", "tiny_sphincs.c", "fips202.c", "sha256_hash.c", "sha512_hash.c", "ramspace.py"],
  [("array sizing from the tune settings", "tiny_sphincs.h"), ("address layout choice", "tiny_sphincs.c:set_*_adr"), ("precomputed seed state", "sha256_hash.c:ts_sha256_init_ctx, sha512_hash.c:ts_sha512_init_ctx"), ("three Keccak permutations", "fips202.c")],
  [], ["keys, signatures, verdicts per configuration"])

p("C13", "Incremental hashes equal the standard functions for every length and split",
  "The incremental SHA-256, SHA-512 and SHAKE256 interfaces produce the standard digests for every input length (including lengths whose bit count exceeds 32 bits) and every way of splitting the input into updates and, for SHAKE256, the output into squeezes. Truncated outputs are the exact prefixes and write nothing more, and resuming from a state saved after exactly one block equals not having saved.",
  ["inputs", "histories"], "all input lengths x all splittings into updates/squeezes",
  "Known answers at 5 SHA-512 and 5 SHAKE256 lengths with constant-size chunks; SHA-256 has no test of its own.",
  ["sha256.c", "sha512.c", "fips202.c", "sha2.h", "fips202.h", "endian.c"],
  [("block buffer shared with the key schedule", "sha256.c:compress, sha512.c:sha512_compress"), ("padding", "ts_SHA256_final_trunc, ts_SHA512_final_trunc, keccak_inc_finalize"), ("absorb/squeeze position", "fips202.c:keccak_inc_absorb, keccak_inc_squeeze")],
  [("count, num/in_buffer", "total bits and bytes buffered", "sha2.h"), ("s[25]", "absorb/squeeze position", "fips202.h")],
  ["digest bytes"])

p("C14", "Reported sizes are exact",
  "The reported private-key, public-key and signature sizes of each parameter set equal the specification's sizes (4n, 2n, and n(1 + k(t+1) + h + d(2n+3))), and equal the number of bytes key generation writes, the signer delivers before reporting the end, and the verifier needs before it can report success.",
  ["inputs", "configurations"], "all parameter sets (and all shapes of parameter set) in all configurations",
  "Sizes are compared with the signer's output for 7 sets in one or two configurations, never with the specification or with what the verifier consumes.",
  ["size.c", "tiny_sphincs.c", "verify.c", "key_gen.c"],
  [("closed formula", "size.c:ts_size_signature"), ("end of signature", "tiny_sphincs.c:ts_sign")],
  [], ["ts_size_* results, bytes produced and consumed"])

p("C15", "Messages of every length are signed and verified in full",
  "For every message length - empty, around every hash-block boundary, and beyond 2^32 bits or 2^32 bytes - the randomizer R and the signed position are the specified functions of the entire message, for signing and verification alike. Changing any single byte, or appending or removing bytes at either end, gives a different message for both sides.",
  ["inputs"], "all message lengths and all byte positions, all parameter sets",
  "Every test signs the 3-byte message \"abc\"; multi-block messages, padding boundaries and empty messages never reach the signing or verifying code.",
  ["sha256_L1_hash.c", "sha512_hash.c", "shake256_hash.c", "sha256.c", "sha512.c", "fips202.c", "tiny_sphincs.c", "verify.c"],
  [("PRF_msg (HMAC / SHAKE)", "ts_sha2_L1_prf_msg, ts_sha2_L35_prf_msg, ts_shake256_prf_msg"), ("H_msg (MGF1 / SHAKE)", "ts_sha2_L1_hash_msg, ts_sha2_L35_hash_msg, ts_shake256_hash_msg")],
  [], ["first signature bytes (R, first FORS secret), verdicts"])

p("C16", "Every message digest selects the specified FORS leaves and hypertree path",
  "Whatever digest a message hashes to, the signature opens exactly the FORS leaves and follows exactly the hypertree path (tree and leaf at each layer) that the specification derives from it, the verifier follows the same path, and the signature verifies. This includes the first and last leaf of every tree and tree indices using all 64 bits.",
  ["inputs"], "all digests: every bit position and every index value of every tree at every layer",
  "Each test draws one digest per parameter set, i.e. one leaf per tree out of up to 16384 and one path out of up to 2^68.",
  ["tiny_sphincs.c", "verify.c", "internal.h"],
  [("digest parsing", "tiny_sphincs.c:ts_convert_message_hash_to_hypertree_position, extract_int_from_hash"), ("stepping to the parent tree", "tiny_sphincs.c:ts_sign, verify.c:ts_update_verify"), ("left/right choice", "tiny_sphincs.c:ts_merkle_path, verify.c:next_auth_path")],
  [("tree_address, auth_path_node, fors_keypair_addr, hypertree_level, fors_tree", "current position", "tiny_sphincs.h")],
  ["signature bytes, verdicts"])

p("C17", "A one-time key position never signs two different values",
  "For a fixed private key, whatever messages and randomizers are signed, every WOTS+ key of the hypertree above the FORS layer always signs the same value, and every value revealed from FORS or WOTS+ secrets is the one belonging to its position: no two signatures, and no two places within a signature, reveal different data for the same position or the same secret for different positions.",
  ["histories", "inputs"], "all sets of signatures made with one key (all digests of a small instance), all pairs of positions",
  "Tests never sign two messages with one key, so no relation between signatures is ever checked.",
  ["tiny_sphincs.c", "internal.h"],
  [("secrets derived from the full address", "tiny_sphincs.c:set_wots_prf_adr, set_fors_prf_adr"), ("value signed at layer i+1 is the recomputed root of layer i", "tiny_sphincs.c:ts_merkle_path, ts_set_up_wots_signature")],
  [("adr", "address fed to the PRF", "tiny_sphincs.h")],
  ["signature bytes across signatures"])

p("C18", "RAM use is bounded, constant, and needs no heap or static storage",
  "Key generation, signing and verification use no heap and no writable static storage, and their peak RAM (context plus stack) is a constant of the build: up to the frames of different call paths (about 100 bytes) it is the same for every message, message length, chunk size and position in the signature, and never grows with any of them. Built for a single parameter set with the minimal-RAM settings, it stays within 25% of the published RAM table for that set.",
  ["inputs", "histories", "configurations"], "all messages, chunkings and positions, for each parameter set in its minimal configuration",
  "The RAM utility is never run by the tests and measures one message and one chunking; nothing bounds what it reports.",
  ["tiny_sphincs.h", "tiny_sphincs.c", "verify.c", "key_gen.c", "sha256.c", "sha512.c", "fips202.c", "ramspace.out", "read.me"],
  [("scratch space reused inside the context", "tiny_sphincs.h:union x"), ("key schedule in the hash buffer", "sha256.c, sha512.c")],
  [("struct ts_context", "all long-lived memory", "tiny_sphincs.h")],
  ["stack high-water mark, allocator calls, writes to static storage"])

p("C19", "Buffers may be reused exactly when the documentation says so",
  "The message buffer may be overwritten or released as soon as the signing-start call returns, each signature chunk as soon as the call that delivered or consumed it returns, and the random function is not needed after the call it was passed to, without any effect on the remaining signature or on the verdict. During verification the message and the public key, and during signing the private key, are the only caller buffers still consulted.",
  ["histories"], "every point of the operation at which each buffer is destroyed or overwritten",
  "All tests keep the message and the signature in place for the whole operation.",
  ["tiny_sphincs.c", "verify.c", "tiny_sphincs.h"],
  [("message fully consumed by the start call", "tiny_sphincs.c:ts_init_sign"), ("element copied into the context", "verify.c:ts_update_verify")],
  [("public_key, x.verify.message", "the only retained caller pointers", "tiny_sphincs.h")],
  ["signature bytes, verdicts, faults on released buffers"])

p("C20", "The RAM report tool measures what it claims",
  "For each parameter set in its own minimal configuration the RAM report tool succeeds and appends one line to the named file with the parameter set's name, the true context size, and key generation, signing and verification RAM figures that agree with an independent measurement of the same operations; it never prints a failure mark for a correct build and keeps what the file already contained.",
  ["configurations", "histories"], "all 12 parameter sets in their minimal configurations, repeated runs on the same file",
  "The tool is linked in one configuration but never run by the tests.",
  ["ramspace.c", "get_space.c", "get_space2.c", "stack.c", "ramspace.py"],
  [("pattern painting and scanning", "stack.c"), ("operation drivers", "get_space2.c"), ("report line", "ramspace.c:main")],
  [], ["the report file"])

p("C21", "Streaming costs no extra hashing",
  "Producing or checking a signature in arbitrarily small pieces performs exactly as many hash computations as doing it in one call, and the total for key generation, signing and verification never exceeds what the algorithm with one pass over each needed tree requires. Every call terminates; a zero-length request or a request after the end performs none.",
  ["histories", "inputs"], "all splittings x parameter sets x digests",
  "Tests do not observe cost; a recomputation per piece would only make them slower.",
  ["tiny_sphincs.c", "verify.c", "key_gen.c"],
  [("element buffered once generated", "tiny_sphincs.c:ts_sign"), ("running root kept next to the authentication path", "tiny_sphincs.c:ts_merkle_path")],
  [("buffer, auth_path_buffer", "cached element and running root", "tiny_sphincs.h")],
  ["number of hash evaluations per call"])

p("C22", "Execution and memory access do not depend on secrets",
  "The instructions executed and the addresses accessed by key generation and signing do not depend on the secrets: for every value of SK.seed and SK.prf (and of the values hashed from them that are not part of the signature) they are the same, given the same public data, i.e. parameter set, message length, chunking, message digest (the positions signed) and the signature's WOTS+ digits, which are public. Nothing secret is used as a branch condition, loop bound or index.",
  ["inputs"], "all values of every secret byte x operations x parameter sets",
  "Results are unaffected; tests cannot see it.",
  ["tiny_sphincs.c", "key_gen.c", "sha256.c", "sha512.c", "fips202.c", "sha256_L1_hash.c", "sha512_hash.c", "shake256_hash.c"],
  [("secrets are only copied, hashed and masked", "sha256_hash.c:ts_sha2_prf"), ("HMAC over fixed-size blocks", "sha512_hash.c:ts_sha2_L35_prf_msg")],
  [("private key", "SK.seed and SK.prf behind the public key pointer", "tiny_sphincs.h")],
  ["sequence of basic blocks", "sequence of accessed addresses"])

p("C23", "Results do not depend on the machine: byte order, word size, alignment",
  "Every operation (key generation, signing, verifying, with any placement of the caller's buffers and any chunking) gives the same bytes and return values whatever the machine: big- or little-endian, 32- or 64-bit, signed or unsigned plain char, and one that traps misaligned accesses. No operation accesses memory misaligned for the type used (the caller's keys, messages and signature buffers may lie anywhere), shifts by the width of the type or more, overflows a signed integer, indexes beyond an array, or lets memory nobody has written decide what it does or delivers.",
  ["inputs"], "machines x buffer placements x chunkings x digests x altered signatures",
  "Tests run on one 64-bit little-endian machine that tolerates misaligned accesses and hides uninitialised and out-of-range reads.",
  ["endian.c", "fips202.c", "sha256.c", "sha512.c", "tiny_sphincs.c", "verify.c", "key_gen.c"],
  [("multi-byte values are read and written byte by byte", "endian.c"), ("64-bit lanes are loaded and stored byte by byte, little-endian", "fips202.c:load64"), ("tree addresses are uint64_t", "tiny_sphincs.h:struct ts_context")],
  [("tree address", "64 bits, on every machine", "tiny_sphincs.h"), ("caller's buffers", "unsigned char arrays of any alignment", "tiny_sphincs.h")],
  ["keys, signatures, verdicts and counts on the other machine", "traps and sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
