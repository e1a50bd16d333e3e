(* C13: every (buffer, offset, length) argument, over all integers; all parameter lengths. *)
open Cryptokit
open Hutil
module F = H_fake
let reg = Sym.register
let det n = String.init n (fun i -> Char.chr ((i * 91 + 5) land 255))
let any l = Sym.int l min_int max_int
let inv = function Invalid_argument _ -> true | _ -> false
let inside ofs len n = len >= 0 && ofs >= 0 && ofs <= n - len
(* an empty range designates nothing: accepting it as a no-op is fine *)
let accepts ofs len n = len <= 0 || inside ofs len n
(* one (buf, ofs, len) argument that is only read *)
let read_range name n ?(ok = fun _ -> false) f =
  reg ("C13." ^ name) (fun () ->
    let c = Sym.string "buffer" n in
    let b = Bytes.of_string c in
    let ofs = any "ofs" and len = any "len" in
    match Sym.attempt (fun () -> f b ofs len) with
    | Val () -> Sym.check "accepted only inside the buffer" (accepts ofs len n); Sym.check_eq "buffer unchanged" c (Bytes.to_string b)
    | Exn e when inv e -> Sym.check "refused only outside the buffer" (not (inside ofs len n)); Sym.check_eq "buffer unchanged" c (Bytes.to_string b)
    | Exn e -> Sym.check "other error only inside the buffer" (ok e && inside ofs len n); Sym.check_eq "buffer unchanged" c (Bytes.to_string b))
(* one (buf, ofs, len) argument that is written *)
let write_range name n ?(ok = fun _ -> false) f =
  reg ("C13." ^ name) (fun () ->
    let c = Sym.string "buffer" n in
    let b = Bytes.of_string c in
    let ofs = any "ofs" and len = any "len" in
    match Sym.attempt (fun () -> f b ofs len) with
    | Val () ->
        if len <= 0 then Sym.check_eq "nothing written" c (Bytes.to_string b)
        else if not (inside ofs len n) then Sym.fail "accepted only inside the buffer"
        else begin
          Sym.check_eq "bytes before the range" (sub c 0 ofs) (bsub b 0 ofs);
          Sym.check_eq "bytes after the range" (sub c (ofs + len) (n - ofs - len)) (bsub b (ofs + len) (n - ofs - len))
        end
    | Exn e when inv e -> Sym.check "refused only outside the buffer" (not (inside ofs len n)); Sym.check_eq "nothing written" c (Bytes.to_string b)
    | Exn e when ok e -> Sym.check_eq "nothing written" c (Bytes.to_string b)
    | Exn e -> Sym.fail ("other error " ^ Printexc.to_string e))
(* src, sofs, dst, dofs of fixed length k *)
let transform name k sn dn mk =
  reg ("C13." ^ name) (fun () ->
    let sc = Sym.string "src" sn and dc = Sym.string "dst" dn in
    let s = Bytes.of_string sc and d = Bytes.of_string dc in
    let so = any "sofs" and dd = any "dofs" in
    let valid () = so >= 0 && so <= sn - k && dd >= 0 && dd <= dn - k in
    let t = mk () in
    (match Sym.attempt (fun () -> t s so d dd) with
    | Val () ->
        if not (valid ()) then Sym.fail "accepted only inside the buffers"
        else begin
          Sym.check_eq "bytes before the range" (sub dc 0 dd) (bsub d 0 dd);
          Sym.check_eq "bytes after the range" (sub dc (dd + k) (dn - dd - k)) (bsub d (dd + k) (dn - dd - k))
        end
    | Exn e when inv e -> Sym.check "refused only outside the buffers" (not (valid ())); Sym.check_eq "nothing written" dc (Bytes.to_string d)
    | Exn e -> Sym.fail ("other error " ^ Printexc.to_string e));
    Sym.check_eq "source unchanged" sc (Bytes.to_string s))
(* src, sofs, dst, dofs, len *)
let transform_len name sn dn mk =
  reg ("C13." ^ name) (fun () ->
    let sc = Sym.string "src" sn and dc = Sym.string "dst" dn in
    let s = Bytes.of_string sc and d = Bytes.of_string dc in
    let so = any "sofs" and dd = any "dofs" and len = any "len" in
    let valid () = inside so len sn && inside dd len dn in
    let t = mk () in
    (match Sym.attempt (fun () -> t s so d dd len) with
    | Val () ->
        if len <= 0 then Sym.check_eq "nothing written" dc (Bytes.to_string d)
        else if not (valid ()) then Sym.fail "accepted only inside the buffers"
        else begin
          Sym.check_eq "bytes before the range" (sub dc 0 dd) (bsub d 0 dd);
          Sym.check_eq "bytes after the range" (sub dc (dd + len) (dn - dd - len)) (bsub d (dd + len) (dn - dd - len))
        end
    | Exn e when inv e -> Sym.check "refused only outside the buffers" (not (valid ())); Sym.check_eq "nothing written" dc (Bytes.to_string d)
    | Exn e -> Sym.fail ("other error " ^ Printexc.to_string e));
    Sym.check_eq "source unchanged" sc (Bytes.to_string s))

(* ---------------------------------------------------------------- hashes and MACs *)
let hashes : (string * (unit -> hash)) list = [
  "sha1", Hash.sha1; "sha224", Hash.sha224; "sha256", Hash.sha256; "sha384", Hash.sha384; "sha512", Hash.sha512;
  "sha3", (fun () -> Hash.sha3 256); "keccak", (fun () -> Hash.keccak 512); "ripemd160", Hash.ripemd160; "md5", Hash.md5;
  "blake2b", (fun () -> Hash.blake2b 512); "blake2s", (fun () -> Hash.blake2s 256); "blake3", (fun () -> Hash.blake3 256);
  "hmac", (fun () -> MAC.hmac_sha1 "key"); "hmac-sha512", (fun () -> MAC.hmac_sha512 "key"); "hmac-sha256", (fun () -> MAC.hmac_sha256 "key"); "hmac-sha384", (fun () -> MAC.hmac_sha384 "key");
  "hmac-md5", (fun () -> MAC.hmac_md5 "key"); "hmac-ripemd160", (fun () -> MAC.hmac_ripemd160 "key");
  "mac-blake2b", (fun () -> MAC.blake2b 512 "key"); "mac-blake2s", (fun () -> MAC.blake2s 256 "key"); "mac-blake3", (fun () -> MAC.blake3 256 (det 32));
  "siphash", (fun () -> MAC.siphash (det 16)); "siphash128", (fun () -> MAC.siphash128 (det 16));
  "aes-cmac", (fun () -> MAC.aes_cmac (det 16)); "mac-aes", (fun () -> MAC.aes ~pad:Padding.length (det 16)); "mac-des", (fun () -> MAC.des (det 8));
  "mac-3des", (fun () -> MAC.triple_des (det 24)); "mac-des3", (fun () -> MAC.des_final_triple_des ~pad:Padding._8000 (det 16)) ]
let () = List.iter (fun (n, mk) ->
    read_range ("add_substring-" ^ n) 4 (fun b o l -> let h = mk () in h#add_substring b o l);
    (* with a partly filled block *)
    read_range ("add_substring-filled-" ^ n) 3 (fun b o l -> let h = mk () in h#add_string "abcde"; h#add_substring b o l)) hashes;
  (* blocks smaller than the piece: several blocks in one call *)
  List.iter (fun (n, mk) -> read_range ("add_substring-long-" ^ n) 10 (fun b o l -> let h : hash = mk () in h#add_string "abc"; h#add_substring b o l))
    [ "siphash", (fun () -> MAC.siphash (det 16)); "cbcmac4", (fun () -> new Block.mac ~pad:Padding.length (uc 4 "k")); "cbcmac3x4", (fun () -> new Block.mac_final_triple ~pad:Padding.length (uc 4 "k") (ud 4 "l") (uc 4 "m")) ]

(* ---------------------------------------------------------------- transforms *)
let transforms : (string * (exn -> bool) * (unit -> (bytes -> int -> int -> unit))) list =
  let none _ = false in
  let enc e = e = Error Bad_encoding in
  let tr (t : transform) = t#put_substring and au (t : authenticated_transform) = t#put_substring in
  [ "block4", none, (fun () -> tr (new Block.cipher (uc 4 "k"))); "padded-enc", none, (fun () -> tr (new Block.cipher_padded_encrypt Padding.length (uc 4 "k")));
    "padded-dec", none, (fun () -> tr (new Block.cipher_padded_decrypt Padding.length (ud 4 "k")));
    "aes-cbc", none, (fun () -> tr (Cipher.aes (det 16) Cipher.Encrypt)); "aes-ctr", none, (fun () -> tr (Cipher.aes ~mode:Cipher.CTR (det 16) Cipher.Encrypt));
    "stream", none, (fun () -> tr (new Stream.cipher (new ustream "s"))); "arcfour", none, (fun () -> tr (Cipher.arcfour "key" Cipher.Encrypt));
    "chacha20", none, (fun () -> tr (Cipher.chacha20 (det 32) Cipher.Encrypt));
    "base64-enc", none, (fun () -> tr (Base64.encode_compact ())); "base64-multi", none, (fun () -> tr (Base64.encode_multiline ()));
    "base64-dec", enc, (fun () -> tr (Base64.decode ())); "hexa-enc", none, (fun () -> tr (Hexa.encode ())); "hexa-dec", enc, (fun () -> tr (Hexa.decode ()));
    "compress", none, (fun () -> F.reset 0 0 0; tr (Zlib.compress ())); "uncompress", none, (fun () -> F.reset 0 0 0; tr (Zlib.uncompress ()));
    "compose", none, (fun () -> tr (compose (Hexa.encode ()) (Base64.encode_compact ())));
    "gcm", none, (fun () -> au (AEAD.aes_gcm ~iv:(det 12) (det 16) AEAD.Encrypt)); "gcm-dec", none, (fun () -> au (AEAD.aes_gcm ~iv:(det 12) (det 16) AEAD.Decrypt));
    "chapoly", none, (fun () -> au (AEAD.chacha20_poly1305 ~iv:(det 12) (det 32) AEAD.Encrypt));
    "chapoly-dec", none, (fun () -> au (AEAD.chacha20_poly1305 ~iv:(det 12) (det 32) AEAD.Decrypt));
    "then-hash", none, (fun () -> au (transform_then_hash (Hexa.encode ()) (new uhash "h"))); "and-hash", none, (fun () -> au (transform_and_hash (Hexa.encode ()) (new uhash "h"))) ]
let () = List.iter (fun (n, ok, mk) -> read_range ("put_substring-" ^ n) (if n = "base64-dec" || n = "hexa-dec" then 2 else 5) ~ok (fun b o l -> mk () b o l)) transforms

(* ---------------------------------------------------------------- block and stream ciphers *)
let ciphers : (string * int * (unit -> Block.block_cipher)) list = [
  "aes128", 16, (fun () -> new Block.aes_encrypt (det 16)); "aes192", 16, (fun () -> new Block.aes_encrypt (det 24)); "aes256-dec", 16, (fun () -> new Block.aes_decrypt (det 32));
  "aes128-dec", 16, (fun () -> new Block.aes_decrypt (det 16)); "des", 8, (fun () -> new Block.des_encrypt (det 8)); "des-dec", 8, (fun () -> new Block.des_decrypt (det 8));
  "3des", 8, (fun () -> new Block.triple_des_encrypt (det 16)); "3des-dec", 8, (fun () -> new Block.triple_des_decrypt (det 24));
  "blowfish", 8, (fun () -> new Block.blowfish_encrypt (det 7)); "blowfish-dec", 8, (fun () -> new Block.blowfish_decrypt (det 56));
  "cbc-enc", 4, (fun () -> new Block.cbc_encrypt (uc 4 "k")); "cbc-dec", 4, (fun () -> new Block.cbc_decrypt (ud 4 "k"));
  "cfb-enc", 3, (fun () -> new Block.cfb_encrypt 3 (uc 4 "k")); "cfb-dec", 3, (fun () -> new Block.cfb_decrypt 3 (uc 4 "k")); "cfb1-dec", 1, (fun () -> new Block.cfb_decrypt 1 (uc 4 "k"));
  "cfb1-enc", 1, (fun () -> new Block.cfb_encrypt 1 (uc 4 "k"));
  "ofb", 3, (fun () -> new Block.ofb 3 (uc 4 "k")); "ofb4", 4, (fun () -> new Block.ofb 4 (uc 4 "k")); "ctr", 4, (fun () -> new Block.ctr (uc 4 "k")) ]
let () = List.iter (fun (n, k, mk) ->
    transform ("transform-" ^ n) k (k + 2) (k + 3) (fun () -> (mk ())#transform);
    transform ("transform-short-" ^ n) k (k - 1) (k + 1) (fun () -> (mk ())#transform);
    transform ("transform-shortdst-" ^ n) k (k + 1) (k - 1) (fun () -> (mk ())#transform)) ciphers;
  List.iter (fun (n, mk) ->
    transform_len ("transform-" ^ n) 3 4 (fun () -> (mk () : Stream.stream_cipher)#transform);
    transform_len ("transform-short-" ^ n) 4 2 (fun () -> (mk () : Stream.stream_cipher)#transform))
    [ "arcfour", (fun () -> new Stream.arcfour "key"); "chacha20", (fun () -> new Stream.chacha20 (det 32)); "chacha20-16", (fun () -> new Stream.chacha20 ~iv:(det 12) (det 16)) ];
  transform_len "xor_bytes" 3 4 (fun () -> xor_bytes);
  transform_len "xor_bytes-short" 4 2 (fun () -> xor_bytes);
  transform_len "xor_string" 3 4 (fun () -> fun s -> xor_string (Bytes.to_string s));
  transform_len "xor_string-short" 4 2 (fun () -> fun s -> xor_string (Bytes.to_string s));
  (* same buffer as source and destination *)
  reg "C13.xor-same" (fun () ->
    let c = Sym.string "buf" 4 in
    let b = Bytes.of_string c in
    let so = any "sofs" and dd = any "dofs" and len = any "len" in
    match Sym.attempt (fun () -> xor_bytes b so b dd len) with
    | Val () -> Sym.check "inside" (len <= 0 || inside so len 4 && inside dd len 4)
    | Exn e -> Sym.check "refused" (inv e && not (inside so len 4 && inside dd len 4)); Sym.check_eq "nothing written" c (Bytes.to_string b))

(* ---------------------------------------------------------------- random generators *)
let () = List.iter (fun (n, len, (mk : unit -> Random.rng)) -> write_range ("random_bytes-" ^ n) len ~ok:(fun e -> n = "hardware" && e = Error No_entropy_source) (fun b o l -> (mk ())#random_bytes b o l))
  [ "system", 5, (fun () -> F.reset 0 0 0; Random.system_rng ()); "hardware", 5, (fun () -> Random.hardware_rng ()); "device", 4, (fun () -> F.reset 0 0 0; Random.device_rng "/dev/fake");
    "secure", 4, (fun () -> F.reset 0 0 0; Random.secure_rng); "pseudo", 4, (fun () -> Random.pseudo_rng (det 20)); "pseudo-aes", 4, (fun () -> Random.pseudo_rng_aes_ctr (det 16));
    "pseudo-aes-long", 20, (fun () -> Random.pseudo_rng_aes_ctr (det 16)); "pseudo-long", 9, (fun () -> let r = Random.pseudo_rng (det 40) in r#random_bytes (Bytes.create 62) 0 62; r) ];
  write_range "wipe_bytes" 3 (fun b o l -> if not (inside o l 3) then invalid_arg "" else if l = 3 then wipe_bytes b);
  List.iter (fun n -> reg (Printf.sprintf "C13.random-string-%d" n) (fun () ->
    F.reset 0 0 0;
    let l = if n = 0 then any "len" else Sym.int "len" 0 n in
    if n > 0 || l < 0 then match Sym.attempt (fun () -> Random.string (Random.system_rng ()) l) with
    | Val s -> Sym.check "length" (String.length s = l)
    | Exn e -> Sym.check "refused" (inv e && l < 0))) [0; 9]

(* ---------------------------------------------------------------- padding schemes on any block *)
let () = List.iter (fun (n, (s : Padding.scheme)) ->
    List.iter (fun k ->
      reg (Printf.sprintf "C13.strip-%s-%d" n k) (fun () ->
        let c = Sym.string "block" k in
        let b = Bytes.of_string c in
        (match Sym.attempt (fun () -> s#strip b) with
        | Val u -> Sym.check "position inside the block" (u >= 0 && u < k)
        | Exn e -> Sym.check "refused" (e = Error Bad_padding));
        Sym.check_eq "block unchanged" c (Bytes.to_string b));
      reg (Printf.sprintf "C13.pad-%s-%d" n k) (fun () ->
        let c = Sym.string "block" k in
        let b = Bytes.of_string c in
        let u = Sym.int "used" 0 (k - 1) in
        s#pad b u;
        Sym.check_eq "used part unchanged" (sub c 0 u) (bsub b 0 u))) [1; 3; 8; 16])
  [ "length", Padding.length; "8000", Padding._8000 ]

(* ---------------------------------------------------------------- C code for every accepted parameter: all key, IV and data lengths *)
let params = [
  "aes", 34, (fun k -> (new Block.aes_encrypt k)#transform (Bytes.create 16) 0 (Bytes.create 16) 0; (new Block.aes_decrypt k)#transform (Bytes.create 16) 0 (Bytes.create 16) 0);
  "des", 10, (fun k -> (new Block.des_encrypt k)#transform (Bytes.create 8) 0 (Bytes.create 8) 0);
  "3des", 26, (fun k -> (new Block.triple_des_encrypt k)#transform (Bytes.create 8) 0 (Bytes.create 8) 0; (new Block.triple_des_decrypt k)#transform (Bytes.create 8) 0 (Bytes.create 8) 0);
  "des3mac", 26, (fun k -> ignore (hash_string (MAC.des_final_triple_des ~pad:Padding.length k) "abc"));
  "arcfour", 20, (fun k -> ignore (transform_string (Cipher.arcfour k Cipher.Encrypt) "abc"));
  "chacha20", 34, (fun k -> ignore (transform_string (Cipher.chacha20 k Cipher.Encrypt) "abc"));
  "chacha20-iv", 18, (fun iv -> ignore (transform_string (Cipher.chacha20 ~iv (det 32) Cipher.Encrypt) "abc"));
  "cbc-iv", 18, (fun iv -> ignore (transform_string (Cipher.aes ~iv (det 16) Cipher.Encrypt) (det 16)));
  "ctr-iv", 18, (fun iv -> ignore (transform_string (Cipher.aes ~mode:Cipher.CTR ~iv (det 16) Cipher.Encrypt) (det 16)));
  "cfb-iv", 10, (fun iv -> ignore (transform_string (Cipher.des ~mode:(Cipher.CFB 8) ~iv (det 8) Cipher.Encrypt) (det 8)));
  "ofb-iv", 10, (fun iv -> ignore (transform_string (Cipher.des ~mode:(Cipher.OFB 1) ~iv (det 8) Cipher.Encrypt) (det 8)));
  "gcm-iv", 34, (fun iv -> ignore (auth_transform_string (AEAD.aes_gcm ~iv (det 16) AEAD.Encrypt) "abc"));
  "gcm-key", 34, (fun k -> ignore (auth_transform_string (AEAD.aes_gcm ~iv:(det 12) k AEAD.Encrypt) "abc"));
  "chapoly-iv", 14, (fun iv -> ignore (auth_transform_string (AEAD.chacha20_poly1305 ~iv (det 32) AEAD.Encrypt) "abc"));
  "chapoly-key", 34, (fun k -> ignore (auth_transform_string (AEAD.chacha20_poly1305 ~iv:(det 12) k AEAD.Encrypt) "abc"));
  "mac-blake2b", 66, (fun k -> ignore (hash_string (MAC.blake2b 256 k) "abc")); "mac-blake2s", 34, (fun k -> ignore (hash_string (MAC.blake2s 128 k) "abc"));
  "mac-blake3", 34, (fun k -> ignore (hash_string (MAC.blake3 256 k) "abc"));
  "siphash", 18, (fun k -> ignore (hash_string (MAC.siphash k) "abc")); "siphash128", 18, (fun k -> ignore (hash_string (MAC.siphash128 k) "abc"));
  "cmac", 34, (fun k -> ignore (hash_string (MAC.aes_cmac k) "abc"));
  "hmac-sha1", 66, (fun k -> ignore (hash_string (MAC.hmac_sha1 k) "abc"));
  "prng", 40, (fun k -> (Random.pseudo_rng k)#random_bytes (Bytes.create 70) 1 67); "prng-aes", 40, (fun k -> (Random.pseudo_rng_aes_ctr k)#random_bytes (Bytes.create 40) 1 37) ]
let () = List.iter (fun hw -> List.iter (fun (n, mx, f) ->
    if hw = 1 || List.mem n ["aes"; "gcm-key"; "gcm-iv"; "cmac"; "ctr-iv"] then
    reg (Printf.sprintf "C13.params-%s-hw%d" n hw) (fun () ->
      Sym.set "hw" hw;
      let l = Sym.choose "length" 0 mx in
      match Sym.attempt (fun () -> f (det l)) with
      | Val () -> Sym.check "accepted" true
      | Exn (Error _) | Exn (Invalid_argument _) -> Sym.check "refused" true
      | Exn e -> Sym.fail ("exception " ^ Printexc.to_string e))) params) [1; 0];
  reg "C13.blowfish-keys" (fun () ->
      let l = Sym.choose "length" 0 4 in
      let l = if l = 4 then 57 else if l = 3 then 56 else if l = 2 then 55 else l + 3 in
      match Sym.attempt (fun () -> (new Block.blowfish_encrypt (det l))#transform (Bytes.create 8) 0 (Bytes.create 8) 0) with
      | Val () -> Sym.check "accepted" true
      | Exn (Error _) -> Sym.check "refused" true
      | Exn e -> Sym.fail "other exception");
  (* output lengths *)
  List.iter (fun (n, f) -> reg ("C13.sizes-" ^ n) (fun () ->
      let b = any "bits" in
      Sym.assume (b <= 1024);
      match Sym.attempt (fun () -> f b) with
      | Val s -> Sym.check "size" (8 * String.length s = b)
      | Exn (Error _) | Exn (Invalid_argument _) -> Sym.check "refused" true
      | Exn e -> Sym.fail ("exception " ^ Printexc.to_string e)))
  [ "blake2b", (fun b -> hash_string (Hash.blake2b b) "a"); "blake2s", (fun b -> hash_string (Hash.blake2s b) "a"); "blake3", (fun b -> hash_string (Hash.blake3 b) "a");
    "sha3", (fun b -> hash_string (Hash.sha3 b) "a"); "keccak", (fun b -> hash_string (Hash.keccak b) "a"); "sha2", (fun b -> hash_string (Hash.sha2 b) "a") ]
