"""Per-property configuration: which harness files decide it, budgets, and the stated bounds."""
TRUSTED = ['clang 18 front end and -O1 (source to LLVM IR)', 'ocamlc 4.14.1 (source to bytecode)',
           'engine/llvm.py and engine/mlexec.py (IR and bytecode semantics)', 'engine/term.py rewrite rules (validated against z3 by engine/selftest_terms.py)',
           'z3', 'engine/specs.py (independent transcription of the standards, checked against published vectors and hashlib)',
           'models of the OCaml runtime, libc and Zarith calls in engine/cext.py, engine/mlprims.py, engine/zmodel.py']
ASSUME = ['64-bit little-endian platform, OCaml 4.14', 'allocation never fails', 'single-threaded use']
CFG = {}
def P(id, **kw): CFG[id] = kw

P('C01', harness=['h_block'], per=200, level='proof' if False else 'other',
  functions=['Block.{aes,des,triple_des,blowfish}_{encrypt,decrypt}', 'caml_aes_*', 'rijndael*', 'aesni*', 'caml_des_*', 'd3des', 'caml_blowfish_*'],
  bounds='every key of 16/24/32 (AES, with and without AES-NI), 8 (DES), 16/24 (3DES), 4/8/16/56 bytes (Blowfish), every block; two successive blocks per object, odd offsets and in place',
  outside='other Blowfish key lengths; more than two blocks per object')
P('C02', harness=['h_block'], per=200,
  functions=['Block.*', 'Cipher.{aes,des,triple_des,blowfish}', 'caml_aes_*', 'rijndael*', 'aesni*', 'caml_des_*', 'd3des', 'caml_blowfish_*'],
  bounds='as C01; oracle: FIPS 197, FIPS 46-3 and Blowfish (pi digits recomputed) in engine/specs.py',
  outside='other Blowfish key lengths')
P('C21', harness=['h_block', 'h_aead'], per=200,
  functions=['aesni*', 'rijndael*', 'pclmul*', 'ghash*', 'caml_aes_*', 'caml_ghash_*'],
  bounds='every key (16, 24, 32 bytes) and block', outside='CPUs without SSE2')
P('C03', harness=['h_modes'], per=200,
  functions=['Block.{cbc,cfb,ofb,ctr}*', 'Block.cipher', 'make_block_cipher', 'increment_counter', 'Cipher.{aes,des,triple_des,blowfish}', 'caml_xor_string'],
  bounds='block sizes 8 and 16 with an uninterpreted permutation as the cipher: 3 blocks of every data, every IV, every key; CFB/OFB chunk sizes 1-8 (block 8) and 1,5,8,13,15,16 (block 16); CTR widths 1-8 and 1,2,4,7,8,9,12,15,16; counter exhaustion run to the end for 1-byte (thorough: 2-byte) counters; entry points with the real ciphers, 2 blocks',
  outside='longer runs than 3 blocks (except exhaustion), counters wider than 2 bytes run to exhaustion')
P('C04', harness=['h_modes'], per=200,
  functions=['Padding.length', 'Padding._8000', 'cipher_padded_encrypt', 'cipher_padded_decrypt', 'make_block_cipher'],
  bounds='block sizes 4, 8, 16: every message of every length from 0 to 2 blocks + 1, every ciphertext of those lengths, for an arbitrary cipher; scheme objects for every fill level of blocks of 8 and 16 bytes and selected levels at 255',
  outside='longer messages')
P('C05', harness=['h_stream'], per=200,
  functions=['Stream.{chacha20,arcfour}', 'Stream.cipher', 'Cipher.{chacha20,arcfour}', 'chacha20_*', 'arcfour_*', 'caml_chacha20_*', 'caml_arcfour_*'],
  bounds='ChaCha20: every key (16, 32 bytes), nonce (8, 12 bytes), counter (including the carry between counter words) and data, up to 3 blocks, in every split into 2 and selected splits into 3 pieces; ARCfour: keys of 1, 5, 16, 255, 256 bytes with arbitrary data, symbolic keys of small length',
  outside='longer data; ARCfour with a fully symbolic long key (data-dependent swaps)')
P('C06', harness=['h_hash'], per=200, total=600,
  functions=['Hash.*', 'MAC.*', 'Block.mac', 'Block.mac_final_triple', 'all *_add_data / *_update C functions and their OCaml wrappers'],
  bounds='every content; for every algorithm three pieces with sizes on both sides of every block boundary (fill level 0, 1, half, full-1, full, full+1; next piece up to one block past the boundary), byte by byte over two blocks, two interleaved instances; thorough: every fill level with every next length up to two blocks. MAC keys are fixed there (C08 varies them)',
  outside='more than three pieces or three blocks, BLAKE3 inputs over 6 KiB')
P('C07', harness=['h_hash'], per=200, total=600,
  functions=['Hash.*', 'SHA1_*', 'SHA256_*', 'SHA512_*', 'SHA3_*/Keccak*', 'RIPEMD160_*', 'blake2b_*', 'blake2s_*', 'blake3_*', 'stubs and OCaml wrappers'],
  bounds='every message of every length from 0 to two blocks + 2 (128-byte blocks: up to one block + 2 and around two blocks in quick); every BLAKE2 output size, BLAKE3 sizes 1-70,127-129,200 bytes; BLAKE3 trees at lengths around 1..8 chunks; length counters continued from an arbitrary value just below a carry',
  outside='longer messages; MD5 compression itself (OCaml runtime, modelled by its definition)')

P('C08', harness=['h_mac'], per=200,
  functions=['MAC.*', 'Block.{mac,mac_final_triple,cmac}', 'HMAC functor', 'siphash_*', 'blake2*/blake3 keyed modes', 'stubs and OCaml wrappers'],
  bounds='HMAC over an arbitrary hash (uninterpreted) and over the real ones, keys of every length class (below, at, above the block), messages 0 to 2 blocks; CMAC/CBC-MAC over an arbitrary block cipher, every length 0..3 blocks, every content and key; SipHash: every key and message of every length 0..17; BLAKE2/BLAKE3 keyed: every key length class',
  outside='longer messages')
P('C09', harness=['h_aead'], per=200,
  functions=['AEAD.*', 'class aes_gcm*', 'class chacha20_poly1305*', 'GHASH', 'caml_ghash_*', 'pclmul*', 'ghash*', 'poly1305_*', 'caml_poly1305_*', 'Chacha20 stream', 'auth_transform_string*'],
  bounds='GHASH product: every key and block, PCLMUL and portable. AES-GCM: every content for data lengths 0-50, header lengths 0-49, IV lengths 1,11,12,13,16,17,33,60 (thorough: 1-34,47-49,64), keys 16/24/32, in one piece and cut in pieces, both directions (AES and the field product abstract there, decided in C02 and above). ChaCha20-Poly1305: data 0-34 and around 48/64/128, headers 0-34 (Poly1305 abstract). Poly1305: every message and pad up to 32 bytes for multipliers r that are powers of two; cutting independence for every key',
  outside='longer data; Poly1305 for every r at once (multiplication of two symbolic 128-bit values)')
P('C10', harness=['h_aead'], per=200,
  functions=['auth_check_transform_string*', 'string_equal', 'transform_then_hash', 'transform_and_hash', 'AEAD.*'],
  bounds='every input string of every length 0-34,47-49,80 for AES-GCM and ChaCha20-Poly1305, every length up to tag+5 for generic transforms with tags of 1,4,16,20,32 bytes: accepted iff the tag is equal; own output accepted; any non-zero change of the tag rejected; advertised tag size of every MAC',
  outside='longer inputs')

P('C18', harness=['h_env'], per=200,
  functions=['Zlib.compress', 'Zlib.uncompress', 'buffered_output', 'caml_zlib_*'],
  bounds='zlib replaced by a library that in each of its first 3 (thorough: 4) calls consumes any number of bytes, produces 0, 1 or as many bytes as fit (arbitrary contents), ends or not, within its contract, and then behaves simply; inputs of up to 4 bytes in up to 3 pieces, with and without flush; every error code at any of the first 4 calls; lengths up to 2^40 for the size arithmetic of the stubs',
  outside='the compression algorithm itself (zlib), longer inputs, more than 4 surprising calls')
P('C19', harness=['h_env'], per=200,
  functions=['Random.{system_rng,secure_rng,device_rng,hardware_rng,string}', 'caml_system_rng_random_bytes', 'caml_hardware_rng_*'],
  bounds='requests of 0-9, 15-17, 31, 33, 255-257, 300, 511-513, 600, 768, 769 bytes at offset 0-3; getentropy failing at any call; device reads of any short length in the first 1-3 reads, end of file at any of the first 3; RDRAND failing at any of its first 45 tries; arbitrary bytes',
  outside='longer requests; Windows')
P('C13', harness=['h_range'], per=200,
  functions=['every method and function taking (buffer, offset, length)', 'every C stub and the C code behind it (reads and writes checked against object bounds)', 'Padding.*', 'key/IV parameters of every constructor'],
  bounds='every offset and length that is an OCaml int, buffers of 2-20 bytes with arbitrary contents; source/destination variants shorter than a block; keys and IVs of every length from 0 to a few bytes past the largest accepted one; padding blocks of 1, 3, 8, 16 bytes of any content; in all other checks too, any access outside an object is a violation',
  outside='longer buffers; unsafe_* primitives of the OCaml standard library itself')
P('C22', harness=['h_misc'], per=200,
  functions=['string_equal', 'bytes_equal', 'seq_equal', 'xor_bytes', 'xor_string', 'caml_xor_string'],
  bounds='xor: every content, every pair of source/destination offsets 0-8 (all alignments), lengths 0-19, 31-33, 62-72, 79, 80, 87, 88, 95, 96 (thorough: 0-139, 255-257, 1000), surroundings intact; equality: every pair of strings of equal length 0-17, 20, 31-33, 63-65, 100 and of different lengths, any single changed byte at any place',
  outside='longer operands; overlapping source and destination other than identical')
P('C20', harness=['h_misc'], per=200,
  functions=['Random.pseudo_rng', 'Random.pseudo_rng_aes_ctr', 'Random.string', 'chacha20_extract', 'chacha20_init', 'chacha20_block', 'caml_chacha20_*', 'Block.increment_counter', 'caml_aes_*'],
  bounds='every seed of 16-64 bytes (selected lengths), request sequences of up to 18 requests and 384 bytes on both sides of every block boundary; ChaCha20 generator continued from every 64-bit block counter; AES generator over 258 blocks (thorough: 65538) so that the counter carries; every too short seed',
  outside='longer request sequences')
P('C25', harness=['h_gc'], per=200,
  functions=['every caml_* stub', 'custom block finalisers of SHA-3, BLAKE3, GHASH and Zlib contexts'],
  bounds='a collection that moves every heap object at every allocation point of the C code, against no collection at all, for one use of every algorithm with arbitrary data (80 bytes) and keys; every Zlib error; finalisers run once, twice, after wiping, before wiping, and next to a live second context',
  outside='finalisers run on half-initialised contexts; collections triggered by other threads')
P('C15', harness=['h_wipe'], per=200,
  functions=['every wipe method', 'wipe_bytes', 'wipe_string', 'RSA.wipe_key', 'Paillier.wipe_key', 'caml_sha3_wipe', 'caml_blake3_wipe', 'caml_ghash_wipe'],
  bounds='for every class with a wipe method: wiped straight after creation, with a part-filled block, after several blocks and after the result; every key and data of the sizes used; every reachable OCaml and C heap byte after wiping must not depend on key or data (a two-run query); freed blocks included',
  outside='residue on the C stack and in registers; strings that the caller still holds; byte counts and buffer positions; Zlib internal state; copies made by a moving GC')

P('C11', harness=['h_trans'], per=200,
  functions=['buffered_output', 'Block.cipher', 'Block.cipher_padded_encrypt', 'Stream.cipher', 'compose', 'transform_then_hash', 'transform_and_hash', 'Hexa.encode', 'Base64.encode'],
  bounds='every data; histories put/get/[flush]/put/[get]/put/finish over every way of putting and getting, piece sizes 0, 1, a block, a block + 2 (24 bytes), and histories with pieces of 100-400 bytes and partial retrieval so that the output buffer is compacted and enlarged with output pending; block sizes 1, 5, 8, 200, stream, encoders, three compositions, four authenticated transforms. Thorough: every combination in these menus',
  outside='longer histories; outputs over 1 KiB; Zlib (C18)')
P('C12', harness=['h_trans'], per=200,
  functions=['Base64.{encode_multiline,encode_compact,encode_compact_pad,decode}', 'Hexa.{encode,decode}'],
  bounds='encoding: every data of 0-12, 53-56, 107-109, 170 bytes in every split with a one-byte middle piece; decoding: every text of up to 2 characters (thorough: 4 hexadecimal, 3 Base64), alone and inside 16 contexts (complete and incomplete groups, padding, blanks); round trips of every 1-3 bytes and of long data with an arbitrary byte',
  outside='more than 4 arbitrary characters in a text')
P('C14', harness=['h_trans'], per=200,
  functions=['every constructor of Cipher, Block, Stream, Hash, MAC, AEAD', 'hash_size, tag_size, blocksize, input_block_size, output_block_size'],
  bounds='key and IV lengths 0 to past the largest accepted one for every algorithm and mode; requested hash sizes: every OCaml int; ChaCha20 counters: every 64-bit value; result sizes of every hash and MAC, every BLAKE2 size and BLAKE3 sizes 1-64, 2048 bytes; data lengths 0 to 2 blocks + 1',
  outside='RSA/DH/Paillier sizes (C16, C17); Blowfish lengths other than 0-5,17,55-58,64,72; seeds (C20)')
P('C23', harness=['h_trans'], per=200,
  functions=['transform_channel', 'hash_channel'],
  bounds='every input content; inputs of 0-5 bytes in every sequence of reads, with every requested length up to 2 past the end; inputs of 300 and 520 bytes with reads of 1, 255, 256, 257 bytes and lengths around 256 and around the end; abstract transforms and hash, and the real ones on 20 bytes in three reads',
  outside='inputs over 520 bytes; errors of the channels themselves')
P('C24', harness=['h_trans'], per=200,
  functions=['every public operation taking strings or buffers', 'all stubs behind them'],
  bounds='every key, IV, header and data of the sizes used (20-90 bytes): inputs compared after use and after wipe, caller buffer overwritten between put and finish, results compared with those of an undisturbed run; two instances with a shared key interleaved with one wiped before the other ends (AES and GHASH/Poly1305 abstract). SHA-3: fixed data in quick (arbitrary data in C06 and thorough)',
  outside='more than two instances; wiping a generator, which erases the seed given to it by design')
