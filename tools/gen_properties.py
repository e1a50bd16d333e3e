#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in step with MANIFEST.json).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["public API of Cryptokit"], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Block cipher decryption inverts encryption for every key and block",
 "For AES (128, 192 and 256-bit keys), DES, triple DES (16 and 24-byte keys) and Blowfish, decrypting any block that was encrypted under the same key gives back the original block, and encrypting a decrypted block does too. This holds for every key, every block, every source and destination position, and when source and destination are the same place.",
 ["inputs", "configurations"], "every key, every block, every offset; with and without CPU crypto instructions",
 "The tests run a few published vectors; the claim is about all 2^128..2^448 keys and all blocks.",
 ["src/cryptokit.ml", "src/rijndael-alg-fst.c", "src/aesni.c", "src/d3des.c", "src/blowfish.c", "src/stubs-aes.c", "src/stubs-des.c", "src/stubs-blowfish.c"],
 [("AES software rounds and inverse key schedule", "src/rijndael-alg-fst.c rijndaelKeySetupDec/rijndaelDecrypt"), ("AES-NI rounds", "src/aesni.c"), ("DES rounds, key order reversed for decryption", "src/d3des.c"), ("EDE composition", "src/cryptokit.ml class triple_des_decrypt"), ("Blowfish Feistel rounds", "src/blowfish.c")])

prop("C02", "Block ciphers compute exactly their published standards",
 "Encryption and decryption of one block with AES (FIPS 197), DES and triple DES (FIPS 46-3) and Blowfish give exactly the value the standard defines, for every key of every accepted size and every block. Parity bits of DES keys are ignored.",
 ["inputs", "configurations"], "every key of every accepted size and every block; portable and accelerated code",
 "Tests compare a handful of vectors; a wrong table entry or a rarely taken path shows only on particular keys or blocks.",
 ["src/rijndael-alg-fst.c", "src/aesni.c", "src/d3des.c", "src/blowfish.c", "src/cryptokit.ml"],
 [("T-table rounds and key expansion", "src/rijndael-alg-fst.c"), ("AES-NI key expansion and rounds", "src/aesni.c"), ("Outerbridge DES", "src/d3des.c"), ("P/S box setup and rounds", "src/blowfish.c")])

prop("C03", "Chaining modes follow their definitions and invert, for any block cipher",
 "ECB, CBC, CFB with any chunk size, OFB with any chunk size, and CTR with any counter width produce exactly the textbook output for every initialization vector and every data, whatever the underlying block cipher. Decrypting in the same mode gives back the data; counter modes increment only the stated trailing bytes with carries, and stop with an error rather than reuse key stream when a limited counter is exhausted.",
 ["inputs", "histories", "configurations"], "every block cipher (as an arbitrary function / permutation), every IV, every data, every chunk size and counter width",
 "Tests use one or two vectors per mode; carries across many counter bytes, unusual chunk sizes and counter exhaustion are not reached.",
 ["src/cryptokit.ml"],
 [("chaining classes", "src/cryptokit.ml cbc_encrypt .. ctr"), ("counter increment", "src/cryptokit.ml increment_counter"), ("mode selection", "src/cryptokit.ml make_block_cipher, normalize_dir")])

prop("C04", "Padding is added and removed exactly, and malformed padding is rejected",
 "Encrypting data of any length with a padding scheme yields a whole number of blocks with 1 to one-block-size bytes of the documented padding, and decrypting strips exactly those bytes, giving the original data back. On decryption, data whose length is not a positive multiple of the block size is refused with a wrong-length error, and a final block that does not end in a well-formed padding is refused with a bad-padding error; nothing else is refused.",
 ["inputs"], "every message length modulo the block size, every message, every final block",
 "Tests never feed malformed padding; the set of ill-formed final blocks is astronomically large.",
 ["src/cryptokit.ml"],
 [("Padding.length / Padding._8000", "src/cryptokit.ml module Padding"), ("padded ciphers", "src/cryptokit.ml cipher_padded_encrypt/decrypt")])

prop("C05", "Stream ciphers produce the standard key stream, however data is split",
 "ChaCha20 (16 and 32-byte keys, 8 and 12-byte nonces, any starting counter) and ARCfour xor the data with exactly the key stream their definitions give, in order and without skipping or repeating key-stream bytes, whatever the sizes of the successive pieces. Applying the same cipher again restores the data, and block-counter carries are propagated.",
 ["inputs", "histories"], "every key, nonce, counter and data, every sequence of piece sizes",
 "Tests use fixed vectors fed in one piece; the counter carry and odd splits across the 64-byte block are not reached.",
 ["src/chacha20.c", "src/arcfour.c", "src/stubs-chacha20.c", "src/stubs-arcfour.c", "src/cryptokit.ml"],
 [("chacha20 block function, counter and partial-block bookkeeping", "src/chacha20.c"), ("RC4 state", "src/arcfour.c"), ("stream wrapper", "src/cryptokit.ml module Stream")])

prop("C06", "A hash or MAC depends only on the bytes added, not on how they were added",
 "For every hash and MAC, adding the same byte sequence through any sequence of string, substring, character or byte additions, of any sizes including empty ones, gives the same result as adding it in one piece. Different instances never influence each other, and bytes outside the designated substring have no influence.",
 ["inputs", "histories"], "every message and every way to split it, up to the stated number and size of pieces",
 "Tests add data in one piece or in a couple of fixed sizes; buffering bugs need particular fill levels followed by particular piece lengths.",
 ["src/sha1.c", "src/sha256.c", "src/sha512.c", "src/keccak.c", "src/ripemd160.c", "src/blake2.c", "src/blake3.c", "src/siphash.c", "src/poly1305-donna.c", "src/stubs-md5.c", "src/cryptokit.ml"],
 [("block buffering in each update function", "src/*_update / *_add_data"), ("CBC-MAC buffering", "src/cryptokit.ml class mac")])

prop("C07", "Hash functions compute exactly their published standards",
 "SHA-1, SHA-2 (224, 256, 384, 512), SHA-3 and Keccak (224 to 512), RIPEMD-160, MD5, BLAKE2b, BLAKE2s (every output size) and BLAKE3 (every output size) give exactly the digest the standard defines for every message, including the padding and length encoding at every message length and across the points where the internal length counter carries.",
 ["inputs", "configurations"], "every message content up to the stated lengths, every length class modulo the block size, length-counter carries",
 "Tests hash a few short strings and one long one; length-counter carries need messages of half a gigabyte, padding boundaries need particular lengths.",
 ["src/sha1.c", "src/sha256.c", "src/sha512.c", "src/keccak.c", "src/ripemd160.c", "src/blake2.c", "src/blake3.c", "src/blake3_portable.c", "src/stubs-md5.c", "src/cryptokit.ml"],
 [("compression functions", "src/*_transform"), ("finalisation: padding and length", "src/*_finish"), ("BLAKE3 tree hashing", "src/blake3.c")])

prop("C08", "MACs compute exactly their definitions",
 "HMAC over each supported hash, AES-CMAC, CBC-MAC over AES, DES and triple DES with and without padding, the DES MAC with final triple DES, SipHash-2-4 (64 and 128 bits) and keyed BLAKE2b, BLAKE2s and BLAKE3 give exactly the value of their definitions, for every accepted key length and every message. In particular keys longer than the hash block are handled as HMAC prescribes.",
 ["inputs", "configurations"], "every key of every accepted length, every message up to the stated length",
 "Tests use a few vectors; key-length boundaries, the sub-key doubling cases of CMAC and full last blocks are sampled at best once.",
 ["src/cryptokit.ml", "src/siphash.c", "src/blake2.c", "src/blake3.c"],
 [("HMAC functor", "src/cryptokit.ml HMAC"), ("CBC-MAC / CMAC", "src/cryptokit.ml class mac, cmac, MAC.aes_cmac"), ("SipHash", "src/siphash.c"), ("keyed BLAKE", "src/blake2.c, src/blake3.c")])

prop("C09", "Authenticated encryption computes its standard and round-trips",
 "AES-GCM (every key size, every nonce length) and ChaCha20-Poly1305 give exactly the ciphertext and tag their standards define for every key, nonce, header and message, and decryption restores the message and computes the same tag, however the data is split into pieces. Exceeding the standard's message-length limit raises an error.",
 ["inputs", "histories"], "every key, nonce, header, message up to the stated lengths, every split",
 "Tests check published vectors in one piece; nonce lengths other than 12, partial last blocks with particular splits and counter wrap are not covered.",
 ["src/cryptokit.ml", "src/ghash.c", "src/pclmul.c", "src/poly1305-donna-64.h", "src/chacha20.c"],
 [("GCM assembly", "src/cryptokit.ml aes_gcm_encrypt/decrypt"), ("GHASH multiplication", "src/ghash.c, src/pclmul.c"), ("Poly1305 arithmetic", "src/poly1305-donna-64.h"), ("chapoly assembly", "src/cryptokit.ml chapoly_encrypt/decrypt")])

prop("C10", "A tag check accepts the exact tag and rejects every other one",
 "Checking a message with its authentication tag attached succeeds exactly when the trailing tag equals the tag computed over the rest, and then returns the decrypted text; any difference in the tag, in any bit, yields no text, and input shorter than a tag is refused. This also holds when a cipher and a hash are combined into an authenticated transform, hashing either the plain or the encrypted side as documented.",
 ["inputs", "configurations"], "every tag value, every message, every cipher/hash combination as arbitrary functions",
 "Tests flip at most a few bits; a comparison that ignores some tag bits passes them.",
 ["src/cryptokit.ml"],
 [("auth_check_transform_string", "src/cryptokit.ml"), ("constant-time comparison", "src/cryptokit.ml seq_equal"), ("transform_then_hash / transform_and_hash", "src/cryptokit.ml")])

prop("C11", "Transform output is delivered in order, complete and exactly once",
 "For every transform, any interleaving of input additions (strings, substrings, characters, bytes, empty pieces), flushes and output retrievals (whole string, substring, character, byte) delivers the same output byte sequence, with no byte lost, repeated, reordered or invented, and the reported number of available bytes is exactly the number that can be retrieved. Composition feeds all output of the first transform through the second, and retrieving when nothing is available raises End_of_file.",
 ["histories", "inputs"], "every history of put/get/flush operations up to the stated length, including buffer growth and compaction",
 "Tests put everything and get once; buffer compaction and growth with pending output are never exercised.",
 ["src/cryptokit.ml"],
 [("output buffer", "src/cryptokit.ml class buffered_output"), ("block and stream wrappers", "src/cryptokit.ml class cipher"), ("compose", "src/cryptokit.ml class compose")],
 [("obuf/obeg/oend", "pending output window", "src/cryptokit.ml buffered_output"), ("ibuf/used", "partial input block", "src/cryptokit.ml Block.cipher")])

prop("C12", "Base64 and hexadecimal codecs are exact inverses and reject bad input",
 "Encoding any data gives the standard Base64 (with or without padding, or in lines) or hexadecimal text, and decoding it gives the data back, however the data is split. Decoding ignores white space, accepts both hexadecimal cases, and refuses every other character, incomplete groups, and data after Base64 padding with a bad-encoding error.",
 ["inputs", "histories"], "every data up to the stated length, every text up to the stated length, every split",
 "Tests round-trip a few strings; malformed texts and line-length boundaries are not covered.",
 ["src/cryptokit.ml"],
 [("Base64.encode/decode", "src/cryptokit.ml module Base64"), ("Hexa.encode/decode", "src/cryptokit.ml module Hexa")])

prop("C13", "No call reads or writes outside the buffers it was given",
 "Every public operation taking a buffer, offset and length either stays strictly inside the designated ranges or raises Invalid_argument, for all integer offsets and lengths including negative and extreme ones; a refused call has written nothing to the caller's buffers and read nothing outside them. The C implementations never access memory outside the objects they are given for any accepted argument.",
 ["inputs", "histories"], "every offset and length value (full machine-integer range), every buffer size up to the stated bound",
 "Tests only use valid ranges; overflow in offset arithmetic needs extreme values.",
 ["src/cryptokit.ml", "src/stubs-*.c"],
 [("range checks in each method", "src/cryptokit.ml"), ("C loops over the given length", "src/*.c")])

prop("C14", "Bad parameters are refused with the documented error; advertised sizes hold",
 "Constructors accept exactly the documented key, nonce and output sizes and raise the documented error for all others. Advertised sizes are true: a hash or MAC result has exactly the advertised hash size, a tag the advertised tag size, and block sizes are those of the algorithm.",
 ["inputs", "configurations"], "every key length, nonce length and requested size in the stated ranges, every algorithm",
 "Tests use only valid sizes and never compare advertised sizes with results.",
 ["src/cryptokit.ml"],
 [("size checks in constructors", "src/cryptokit.ml"), ("hash_size/tag_size/blocksize methods", "src/cryptokit.ml")])

prop("C15", "Wiping erases key material and buffered data",
 "After wiping a cipher, hash, MAC, authenticated transform or pseudo-random generator, none of the memory it owned still depends on the key, the seed or the data that was processed. Wiping an RSA or Paillier private key erases all of its secret fields, and the wipe primitives overwrite every byte of their argument.",
 ["inputs", "histories"], "every key and data value, every amount of data processed before the wipe up to the stated bound",
 "Tests never look at memory after a wipe.",
 ["src/cryptokit.ml", "src/stubs-sha3.c", "src/stubs-blake3.c", "src/stubs-misc.c"],
 [("wipe methods", "src/cryptokit.ml"), ("context wipes", "src/stubs-sha3.c, src/stubs-blake3.c, src/keccak.c")])

prop("C16", "RSA operations are correct, mutually inverse and range-checked",
 "For every RSA key satisfying the key equations, public and private operations compute modular exponentiation with output of exactly the modulus size, private operations via the Chinese remainder theorem give the same result as the plain ones, decryption inverts encryption and unwrapping inverts signing. Messages not smaller than the modulus are refused. Key generation returns keys of the requested size satisfying the key equations for every random source, honours a requested public exponent and refuses unsupported sizes.",
 ["inputs", "configurations"], "every message for the stated keys; every value of the random source within the number-theory axioms of the big-integer library",
 "Tests use one or two random messages; CRT corner cases (message multiple of a prime, negative difference) have negligible probability there.",
 ["src/cryptokit.ml", "src/cryptokitBignum.ml"],
 [("RSA.encrypt/decrypt/decrypt_CRT/new_key", "src/cryptokit.ml"), ("mod_power_CRT, to_bytes, of_bytes, random_prime", "src/cryptokitBignum.ml")])

prop("C17", "Diffie-Hellman parties agree; Paillier adds homomorphically",
 "Both Diffie-Hellman parties compute the same shared secret, of the size of the modulus, and derived keys are a deterministic function of secret and diversification with exactly the requested length, where shorter derived keys are prefixes of longer ones. Paillier decryption inverts encryption for every message below the modulus and every randomness, and combining ciphertexts decrypts to the sum modulo the modulus.",
 ["inputs", "configurations"], "every private exponent and message for the stated parameters, every random source",
 "Tests use one random run each.",
 ["src/cryptokit.ml", "src/cryptokitBignum.ml"],
 [("DH", "src/cryptokit.ml module DH"), ("Paillier", "src/cryptokit.ml module Paillier"), ("mod_power/mod_mult", "src/cryptokit.ml")])

prop("C18", "Compression feeds and collects every byte, whatever zlib does in one call",
 "Compression and decompression pass every input byte to the compression library exactly once and in order and deliver every output byte it produces exactly once and in order, however little the library consumes or produces per call, and finish exactly when the library reports the end of the stream. Library errors, truncated data and trailing garbage raise a compression error rather than returning partial or wrong data silently.",
 ["histories", "fault_sequences", "inputs"], "every behaviour of the compression library allowed by its contract, for the stated number of calls",
 "Tests round-trip a few strings; short writes at particular buffer levels and error returns are not produced.",
 ["src/cryptokit.ml", "src/stubs-zlib.c"],
 [("Zlib.compress/uncompress loops", "src/cryptokit.ml module Zlib"), ("zlib stubs", "src/stubs-zlib.c")])

prop("C19", "Random requests are filled completely or raise an error",
 "A random-bytes request fills exactly the requested range with bytes from the entropy source, in full, or raises the documented error; short reads, retries and failures of the source never leave part of the range unfilled while reporting success. Bytes outside the range are never touched.",
 ["fault_sequences", "inputs"], "every outcome of every call to the entropy source, every request length and offset up to the stated bound",
 "Tests never make the entropy source fail or return short reads.",
 ["src/cryptokit.ml", "src/stubs-rng.c"],
 [("system_rng / device_rng / hardware_rng", "src/cryptokit.ml module Random"), ("getentropy and rdrand loops", "src/stubs-rng.c")])

prop("C20", "Pseudo-random generators are a fixed function of the seed, however requested",
 "The bytes produced by each pseudo-random generator are the documented key stream of its seed (ChaCha20 or AES in counter mode), independent of how they are requested: any sequence of requests yields successive non-overlapping parts of that stream, written exactly into the requested ranges. Seeds shorter than 16 bytes are refused.",
 ["inputs", "histories"], "every seed of the stated lengths, every sequence of request sizes up to the stated bound",
 "Tests do not compare the stream with its definition under different request sizes.",
 ["src/cryptokit.ml", "src/chacha20.c"],
 [("pseudo_rng", "src/cryptokit.ml"), ("pseudo_rng_aes_ctr", "src/cryptokit.ml"), ("chacha20_extract", "src/chacha20.c")])

prop("C21", "Hardware-accelerated code computes the same as the portable code",
 "Where the CPU offers AES or carry-less multiplication instructions, the accelerated implementations give the same results as the portable ones for every key and input, so that data produced on one machine can be processed on any other. The choice made at run time is consistent between key setup and use.",
 ["inputs", "configurations"], "every key, block and field element; both outcomes of the CPU feature test",
 "Tests run only the variant of the machine they run on.",
 ["src/aesni.c", "src/pclmul.c", "src/rijndael-alg-fst.c", "src/ghash.c", "src/stubs-aes.c", "src/stubs-ghash.c"],
 [("aesni", "src/aesni.c"), ("pclmul", "src/pclmul.c"), ("dispatch", "src/stubs-aes.c, src/stubs-ghash.c")])

prop("C22", "Comparison, xor and modular helpers are exact",
 "The constant-time string and byte comparisons return true exactly when the arguments have equal length and contents. The xor helpers change exactly the designated destination bytes to the exclusive or with the designated source bytes, for every length and alignment. The modular power and multiplication helpers return the exact residue in a string as long as the modulus.",
 ["inputs"], "every contents up to the stated lengths, every offset and length",
 "Tests never test these helpers on near-equal strings or across alignments.",
 ["src/cryptokit.ml", "src/stubs-misc.c", "src/cryptokitBignum.ml"],
 [("seq_equal", "src/cryptokit.ml"), ("caml_xor_string", "src/stubs-misc.c"), ("mod_power/mod_mult", "src/cryptokit.ml")])

prop("C23", "Channel operations equal the string operations, however reads arrive",
 "Transforming or hashing a channel gives the same output as transforming or hashing the string of the bytes read, whatever the sizes in which input arrives, up to end of file or exactly the requested number of bytes. With a requested length the input channel is read no further, and premature end of file raises End_of_file.",
 ["inputs", "schedules"], "every input content and every sequence of read sizes up to the stated bound, every requested length",
 "Tests do not exercise channels with short reads.",
 ["src/cryptokit.ml"],
 [("transform_channel, hash_channel", "src/cryptokit.ml")])

prop("C24", "Operations leave their inputs intact and instances do not share state",
 "No cipher, hash, MAC, encoder or key operation modifies the strings and buffer ranges passed to it as input, and later changes to a caller's buffer never affect results already accepted. Two instances used in any interleaving behave as if each were used alone, including when they share a key.",
 ["inputs", "histories"], "every key and data, interleavings of two instances up to the stated length",
 "Tests use one instance at a time and do not compare inputs afterwards.",
 ["src/cryptokit.ml", "src/stubs-*.c"],
 [("copies of key and IV", "src/cryptokit.ml make_initial_iv, cook_key functions"), ("unsafe_of_string conversions", "src/cryptokit.ml")])

prop("C25", "C code stays correct wherever the garbage collector runs",
 "Every operation gives the same result wherever a garbage collection happens that moves heap objects during it, including while a native routine allocates its result. Finalising or wiping a context never leaves it pointing to freed memory, and finalising twice is harmless.",
 ["schedules"], "every point at which an allocation can trigger a collection",
 "Collections during the short C routines practically never happen in tests.",
 ["src/stubs-*.c"],
 [("CAMLparam/CAMLlocal roots", "src/stubs-*.c"), ("custom block finalisers", "src/stubs-sha3.c, src/stubs-blake3.c, src/stubs-ghash.c, src/stubs-zlib.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
