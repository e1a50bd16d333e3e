From 1f8a5adcf2caa936d355130abc761e934bdb9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:56 +0000
Subject: [PATCH 01/19] fix: AES-NI key setup for 192-bit keys reads 8 bytes
 past the end of the key

---
 src/aesni.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aesni.c b/src/aesni.c
index 7713859..171694b 100644
--- a/src/aesni.c
+++ b/src/aesni.c
@@ -134,7 +134,7 @@ static int aesni_key_expansion(const unsigned char * userkey,
     return 10;
   case 192:
     t1 = _mm_loadu_si128((__m128i*)userkey);
-    t3 = _mm_loadu_si128((__m128i*)(userkey+16));
+    t3 = _mm_loadl_epi64((__m128i*)(userkey+16));
     key_schedule[0] = t1;
     key_schedule[1] = t3;
     t2 = _mm_aeskeygenassist_si128 (t3,0x1);
-- 
2.43.0


From 1a8c78b4eb66c97f7718968ad9f532838e5d6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:17 +0000
Subject: [PATCH 02/19] fix: caml_siphash_init keeps a key pointer that is
 stale after a minor GC

caml_alloc_string can run a minor collection, which moves the key.
Register it as a root, as the other stubs do.
---
 src/stubs-siphash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stubs-siphash.c b/src/stubs-siphash.c
index 63278eb..d2c1cd4 100644
--- a/src/stubs-siphash.c
+++ b/src/stubs-siphash.c
@@ -23,9 +23,10 @@
 
 CAMLprim value caml_siphash_init(value key, value hashlen)
 {
+  CAMLparam1(key);
   value ctx = caml_alloc_string(sizeof(struct siphash));
   siphash_init(siphash_val(ctx), &Byte_u(key, 0), Int_val(hashlen));
-  return ctx;
+  CAMLreturn(ctx);
 }
 
 CAMLprim value caml_siphash_update(value ctx, value src, value ofs, value len)
-- 
2.43.0


From 03e1d4e7a7c3993c113cd1b4723c0c4ef7f1def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:17 +0000
Subject: [PATCH 03/19] fix: caml_ghash_init reads the key through a pointer
 that is stale after a minor GC

caml_alloc_custom can run a minor collection, which moves the key.
---
 src/stubs-ghash.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index 479f0dd..ec45018 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -45,11 +45,13 @@ CAMLprim value caml_ghash_init(value key)
     return key;
   } else {
     struct ghash_context * ctx = caml_stat_alloc(sizeof(struct ghash_context));
-    value res =
+    value res;
+    /* Use the key before allocating [res], which can move it */
+    ghash_init(ctx, &Byte_u(key, 0));
+    res =
       caml_alloc_custom(&ghash_context_ops,
                         sizeof(struct ghash_context *),
                         0, 1);
-    ghash_init(ctx, &Byte_u(key, 0));
     Context_val(res) = ctx;
     return res;
   }
-- 
2.43.0


From 4f25522c8bbb9ace296e5d281926f1a636b205e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:47 +0000
Subject: [PATCH 04/19] fix: hash_size of SHA-224 (28) and RIPEMD-160 (20)

Authenticated transforms use hash_size as the size of the tag, so with
HMAC-RIPEMD-160 auth_check_transform_string rejected every valid tag.
---
 src/cryptokit.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index e061d9e..cde14df 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1098,7 +1098,7 @@ let sha1 () = new sha1
 class sha224 =
   object(self)
     val context = sha224_init()
-    method hash_size = 24
+    method hash_size = 28
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "sha224#add_substring";
@@ -1220,7 +1220,7 @@ let keccak sz = new sha3 sz false
 class ripemd160 =
   object(self)
     val context = ripemd160_init()
-    method hash_size = 32
+    method hash_size = 20
     method add_substring src ofs len =
       if ofs < 0 || len < 0 || ofs > Bytes.length src - len
       then invalid_arg "ripemd160#add_substring";
-- 
2.43.0


From d62ee863957900aa2cf89beea2e0f776d5a6a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:08 +0000
Subject: [PATCH 05/19] fix: Block.cbc_encrypt reads outside the source buffer
 when given invalid offsets

All other block ciphers and modes raise Invalid_argument.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cde14df..7cf8fff 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -654,6 +654,8 @@ class cbc_encrypt ?iv:iv_init (cipher : block_cipher) =
     val iv = make_initial_iv blocksize iv_init
     method blocksize = blocksize
     method transform src src_off dst dst_off =
+      if src_off < 0 || src_off > Bytes.length src - blocksize
+      then invalid_arg "cbc_encrypt#transform";
       xor_bytes src src_off iv 0 blocksize;
       cipher#transform iv 0 dst dst_off;
       Bytes.blit dst dst_off iv 0 blocksize
-- 
2.43.0


From 0e5bc045dd1031c24ee15374252267af8f248027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 06/19] fix: check the range given to put_substring of Zlib
 transforms

The offset and length were passed to the C stub unchecked, which read
outside the source buffer.
---
 src/cryptokit.ml | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 7cf8fff..cc1ae66 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2524,6 +2524,8 @@ class compress level write_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.compress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (_, used_in, used_out) =
@@ -2579,6 +2581,8 @@ class uncompress expect_zlib_header =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Zlib.uncompress#put_substring";
       if len > 0 then begin
         self#ensure_capacity 256;
         let (finished, used_in, used_out) =
-- 
2.43.0


From aa7009f244424b5c99d94dac56a645cd3b954049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 07/19] fix: flushing a Zlib compressor twice in a row raised a
 buffer error

deflate() returns Z_BUF_ERROR when there is nothing to flush, which is
harmless and must not be reported as an error.
---
 src/stubs-zlib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index 4cdf7d1..ed507ee 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -110,7 +110,9 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
   zs->avail_out = Long_val(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
-  if (retcode < 0) caml_zlib_error("Zlib.deflate", vzs);
+  /* Z_BUF_ERROR means that no progress was possible; it is not an error */
+  if (retcode < 0 && retcode != Z_BUF_ERROR)
+    caml_zlib_error("Zlib.deflate", vzs);
   used_in = Long_val(srclen) - zs->avail_in;
   used_out = Long_val(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
-- 
2.43.0


From 71c78f30b3c351fc6976aedbe7c92c87fe6f7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:20 +0000
Subject: [PATCH 08/19] fix: Zlib.uncompress feeds an invented byte at the end,
 so truncated data is accepted

On finish, a dummy space was given to inflate() as if it were compressed data
(needed by zlib before 1.2 for raw streams).  Truncated raw streams could be
completed by it and returned wrong or partial data without an error.
---
 src/cryptokit.ml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index cc1ae66..91a12f1 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2609,16 +2609,16 @@ class uncompress expect_zlib_header =
     method flush = ()
 
     method finish =
-      let rec do_finish first_finish =
+      let rec do_finish () =
         self#ensure_capacity 256;
         let (finished, _, used_out) =
            inflate zs
-                   (Bytes.unsafe_of_string " ") 0 (if first_finish then 1 else 0)
+                   (Bytes.unsafe_of_string "") 0 0
                    obuf oend (Bytes.length obuf - oend)
                    Z_SYNC_FLUSH in
         oend <- oend + used_out;
-        if not finished then do_finish false in
-      do_finish true; inflate_end zs
+        if not finished then do_finish () in
+      do_finish (); inflate_end zs
 
     method wipe =
       output_buffer#wipe
-- 
2.43.0


From d28f6b2c550ffa1e1c6070090f66306050f58c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:22 +0000
Subject: [PATCH 09/19] fix: Zlib stubs lose data when given 4 GiB or more at
 once

avail_in and avail_out are unsigned ints; the length was truncated silently
but the whole length was reported as consumed.
---
 src/stubs-zlib.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/stubs-zlib.c b/src/stubs-zlib.c
index ed507ee..502c8e4 100644
--- a/src/stubs-zlib.c
+++ b/src/stubs-zlib.c
@@ -14,6 +14,7 @@
 /* Stub code to interface with Zlib */
 
 #ifdef HAVE_ZLIB
+#include <limits.h>
 #include <zlib.h>
 #endif
 
@@ -28,6 +29,9 @@ static const value * caml_zlib_error_exn = NULL;
 
 #ifdef HAVE_ZLIB
 
+/* zlib counts bytes in an unsigned int */
+#define AVAIL(len) (Long_val(len) > UINT_MAX ? UINT_MAX : (uInt) Long_val(len))
+
 #define ZStream_val(v) (*((z_streamp *)Data_custom_val(v)))
 
 static void caml_zlib_error(char * fn, value vzs)
@@ -106,15 +110,15 @@ value caml_zlib_deflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = AVAIL(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = AVAIL(dstlen);
   retcode = deflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   /* Z_BUF_ERROR means that no progress was possible; it is not an error */
   if (retcode < 0 && retcode != Z_BUF_ERROR)
     caml_zlib_error("Zlib.deflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = AVAIL(srclen) - zs->avail_in;
+  used_out = AVAIL(dstlen) - zs->avail_out;
   zs->next_in = NULL;         /* not required, but cleaner */
   zs->next_out = NULL;        /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
@@ -153,14 +157,14 @@ value caml_zlib_inflate(value vzs, value srcbuf, value srcpos, value srclen,
   value res;
 
   zs->next_in = &Byte_u(srcbuf, Long_val(srcpos));
-  zs->avail_in = Long_val(srclen);
+  zs->avail_in = AVAIL(srclen);
   zs->next_out = &Byte_u(dstbuf, Long_val(dstpos));
-  zs->avail_out = Long_val(dstlen);
+  zs->avail_out = AVAIL(dstlen);
   retcode = inflate(zs, caml_zlib_flush_table[Int_val(vflush)]);
   if (retcode < 0 || retcode == Z_NEED_DICT)
     caml_zlib_error("Zlib.inflate", vzs);
-  used_in = Long_val(srclen) - zs->avail_in;
-  used_out = Long_val(dstlen) - zs->avail_out;
+  used_in = AVAIL(srclen) - zs->avail_in;
+  used_out = AVAIL(dstlen) - zs->avail_out;
   zs->next_in = NULL;           /* not required, but cleaner */
   zs->next_out = NULL;          /* (avoid dangling pointers into Caml heap) */
   res = caml_alloc_small(3, 0);
-- 
2.43.0


From 73c5792476393c3f39e7a430f8bb65ebf1053425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 10/19] fix: check the range given to put_substring of stream
 ciphers and of ChaCha20-Poly1305

ChaCha20-Poly1305 decryption hashed the range before any check, reading outside
the buffer; with a huge length, ensure_capacity looped forever or ran out of
memory before the range was checked.
---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 91a12f1..fb6ee45 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1044,6 +1044,8 @@ class cipher (cipher : stream_cipher) =
     method output_block_size = 1
 
     method put_substring src ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length src - len
+      then invalid_arg "Stream.cipher#put_substring";
       self#ensure_capacity len;
       cipher#transform src ofs obuf oend len;
       oend <- oend + len
-- 
2.43.0


From 5269e72dad17f8c55332c0b5de3a2bf3106aaa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:05 +0000
Subject: [PATCH 11/19] fix: pseudo_rng_aes_ctr writes part of the buffer
 before refusing an invalid range

---
 src/cryptokit.ml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index fb6ee45..d29dcfb 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1931,6 +1931,8 @@ class pseudo_rng_aes_ctr seed =
     val mutable opos = 16
 
     method random_bytes buf ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length buf - len
+      then invalid_arg "pseudo_rng_aes_ctr#random_bytes";
       if len > 0 then begin
         if opos >= 16 then begin
           (* Encrypt the counter *)
-- 
2.43.0


From 5eda1506e613f55c8cbcac4c28763a85f2ec3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 12/19] fix: check the range given to put_substring of Base64
 and Hexa transforms

Base64 and Hexa transforms looped from ofs to ofs + len - 1: a range that
overflows was silently ignored, and an invalid range was partly consumed
(and Bad_encoding possibly raised) before being refused.
---
 src/cryptokit.ml | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index d29dcfb..0018370 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -2283,6 +2283,8 @@ class encode multiline padding =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2372,6 +2374,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Base64.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2426,6 +2430,8 @@ class encode =
     method put_char c = self#put_byte (Char.code c)
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.encode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
@@ -2471,6 +2477,8 @@ class decode =
       end
 
     method put_substring s ofs len =
+      if len < 0 || ofs < 0 || ofs > Bytes.length s - len
+      then invalid_arg "Hexa.decode#put_substring";
       for i = ofs to ofs + len - 1 do self#put_char (Bytes.get s i) done
 
     method put_string s =
-- 
2.43.0


From eda476a97bb942917ce42ba4ca45a10f3a2c139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:21 +0000
Subject: [PATCH 13/19] fix: conversion of big integers to strings fails unless
 the size is a multiple of 8 bytes

Z.to_bits pads its result to a whole number of machine words.  Copying
all of it writes before the start of the result when the requested number
of bytes is not a multiple of the word size: mod_power, mod_mult, DH, RSA
and Paillier with such moduli raised Invalid_argument.
---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 7cb53a1..4b76b78 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -84,7 +84,9 @@ let to_bytes ?numbits n =
     | None -> String.length s
     | Some nb -> assert (Z.numbits n <= nb); (nb + 7) / 8 in
   let t = Bytes.make l '\000' in
-  for i = 0 to String.length s - 1 do
+  (* [s] is padded with zeros to a whole number of machine words,
+     hence it can be longer than the [l] bytes requested *)
+  for i = 0 to min l (String.length s) - 1 do
     Bytes.set t (l - 1 - i) s.[i]
   done;
   wipe_bytes (Bytes.unsafe_of_string s);
-- 
2.43.0


From 97cd75398e40f6f047dcc6419876b23acd941e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:41 +0000
Subject: [PATCH 14/19] fix: wiping pseudo_rng_aes_ctr leaves the AES key
 schedule and the counter in memory

---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 0018370..42ada2d 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1949,7 +1949,7 @@ class pseudo_rng_aes_ctr seed =
       end
 
     method wipe =
-      wipe_bytes obuf; wipe_string seed
+      cipher#wipe; wipe_bytes ctr; wipe_bytes obuf; wipe_string seed
   end
 
 let pseudo_rng_aes_ctr seed = new pseudo_rng_aes_ctr seed
-- 
2.43.0


From f378f1b9fcf5738732ca68dd8e92f3fb3b490fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:57 +0000
Subject: [PATCH 15/19] fix: wiping an AES-GCM transform leaves the GHASH key,
 the MAC state and data in memory

---
 src/cryptokit.ml  |  9 +++++++--
 src/stubs-ghash.c | 10 ++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 42ada2d..6906e68 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -124,6 +124,7 @@ external blake2s_final: bytes -> int -> string = "caml_blake2s_final"
 type ghash_context
 external ghash_init: bytes -> ghash_context = "caml_ghash_init"
 external ghash_mult: ghash_context -> bytes -> unit = "caml_ghash_mult"
+external ghash_wipe: ghash_context -> unit = "caml_ghash_wipe"
 external poly1305_init: bytes -> bytes = "caml_poly1305_init"
 external poly1305_update: bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
 external poly1305_final: bytes -> string = "caml_poly1305_final"
@@ -1640,7 +1641,9 @@ class aes_gcm_encrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ctr_enc_dec aes ctr buf src soff dst doff 16;
         ghash_block h mac dst doff 16;
@@ -1691,7 +1694,9 @@ class aes_gcm_decrypt ?(header = "") ~iv key =
     let buf = Bytes.create 16 in
     object
       method blocksize = 16
-      method wipe = aes#wipe
+      method wipe =
+        aes#wipe; ghash_wipe h;
+        wipe_bytes ctr; wipe_bytes e0; wipe_bytes mac; wipe_bytes buf
       method transform src soff dst doff =
         ghash_block h mac src soff 16;
         ctr_enc_dec aes ctr buf src soff dst doff 16;
diff --git a/src/stubs-ghash.c b/src/stubs-ghash.c
index ec45018..0694747 100644
--- a/src/stubs-ghash.c
+++ b/src/stubs-ghash.c
@@ -66,3 +66,13 @@ CAMLprim value caml_ghash_mult(value ctx, value x)
   }
   return Val_unit;
 }
+
+CAMLprim value caml_ghash_wipe(value ctx)
+{
+  if (pclmul_available == 1) {
+    memset(&Byte_u(ctx, 0), 0, caml_string_length(ctx));
+  } else if (Context_val(ctx) != NULL) {
+    memset(Context_val(ctx), 0, sizeof(struct ghash_context));
+  }
+  return Val_unit;
+}
-- 
2.43.0


From de7e26fbd7bbb911c180f0d11df69674c2e7eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:31 +0000
Subject: [PATCH 16/19] fix: ChaCha20 with a 12-byte nonce refuses counters
 from 2^24, accepts negative ones

The block counter that goes with a 12-byte nonce has 32 bits.  The check
compared with 0x1_000_000 (2^24) instead of 0x1_0000_0000 (2^32), so that
valid counters were refused, and let negative counters through, which
were then silently truncated.
---
 src/cryptokit.ml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index 6906e68..ef7a691 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1020,7 +1020,7 @@ class chacha20 ?iv ?(ctr = 0L) key =
         | None -> Bytes.make 8 '\000'
         | Some s ->
             if String.length s = 8
-            || String.length s = 12 && ctr < 0x1_000_000L
+            || String.length s = 12 && ctr >= 0L && ctr < 0x1_0000_0000L
             then Bytes.of_string s
             else raise (Error Wrong_IV_size) in
       chacha20_cook_key key iv ctr
-- 
2.43.0


From c7e04340207f3dcb3a20eaa3401c07ea1c333886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:31 +0000
Subject: [PATCH 17/19] fix: MAC.blake3 accepts an empty key and then computes
 an unkeyed hash

The documentation says that the key must have length 32, and other
lengths are refused with Wrong_key_size; the empty string was let
through and silently produced the plain, unauthenticated hash.
---
 src/cryptokit.ml | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cryptokit.ml b/src/cryptokit.ml
index ef7a691..0a0f550 100644
--- a/src/cryptokit.ml
+++ b/src/cryptokit.ml
@@ -1471,8 +1471,11 @@ let blake2b512 key = new Hash.blake2b 512 key
 let blake2s sz key = new Hash.blake2s sz key
 let blake2s256 key = new Hash.blake2s 256 key
 
-let blake3 sz key = new Hash.blake3 key sz
-let blake3_256 key = new Hash.blake3 key 256
+let blake3 sz key =
+  (* The empty key selects the unkeyed hash function, not a MAC. *)
+  if String.length key <> 32 then raise (Error Wrong_key_size);
+  new Hash.blake3 key sz
+let blake3_256 key = blake3 256 key
 
 let aes ?iv ?pad key =
   new Block.mac ?iv ?pad (new Block.aes_encrypt key)
-- 
2.43.0


From aca1237d820326bcfaea7939eaeca24c9da03320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:55 +0000
Subject: [PATCH 18/19] fix: modular exponentiation fails if the exponent is
 zero or the modulus even

Z.powm_sec raises Invalid_argument in these cases; in particular
Paillier.encrypt could not encrypt zero.  Use Z.powm for them.
---
 src/cryptokitBignum.ml | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 4b76b78..0cecbed 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -36,7 +36,9 @@ let lcm = Z.lcm
 let relative_prime a b =
   Z.equal (Z.gcd a b) Z.one
 
-let mod_power = Z.powm_sec
+let mod_power a e p =
+  (* Z.powm_sec accepts only positive exponents and odd moduli *)
+  if Z.sign e > 0 && Z.is_odd p then Z.powm_sec a e p else Z.powm a e p
 
 let sub_mod a b p =
   let d = Z.sub a b in
-- 
2.43.0


From 496c15680b8a9fd465c68f619523f97d82b8390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:55 +0000
Subject: [PATCH 19/19] fix: RSA decryption via CRT is wrong for keys where q >
 p

mp - mq can be less than -p in this case, and the result of decrypt_CRT
was then negative before conversion to a string.
---
 src/cryptokitBignum.ml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptokitBignum.ml b/src/cryptokitBignum.ml
index 0cecbed..c0976bc 100644
--- a/src/cryptokitBignum.ml
+++ b/src/cryptokitBignum.ml
@@ -41,8 +41,8 @@ let mod_power a e p =
   if Z.sign e > 0 && Z.is_odd p then Z.powm_sec a e p else Z.powm a e p
 
 let sub_mod a b p =
-  let d = Z.sub a b in
-  if Z.sign d < 0 then Z.add d p else d
+  (* [b] can exceed [p], hence adding [p] once is not enough *)
+  Z.erem (Z.sub a b) p
 
 (* Modular exponentiation via the Chinese Remainder Theorem.
    Compute a ^ d mod pq, where d is defined by
-- 
2.43.0

