(* C15: after wipe nothing the object owns depends on keys, seeds or data. *)
open Cryptokit
open Hutil
let reg = Sym.register
let det n = String.init n (fun i -> Char.chr ((i * 91 + 5) land 255))
let sec = Sym.secret
let hws = function true -> [0; 1] | false -> [1]
let case ?(both = false) name mk use wipe =
  List.iter (fun hw ->
    let nm = Printf.sprintf "C15.%s%s" name (if hw = 0 then "-sw" else "") in
    reg nm (fun () -> Sym.set "hw" hw; let o = mk () in use o; wipe o; Sym.check_indep "after wipe" o);
    reg (nm ^ "-fresh") (fun () -> Sym.set "hw" hw; let o = mk () in wipe o; Sym.check_indep "after wipe" o)) (hws both)
(* block ciphers *)
let blk ?both name kl mk = case ?both name (fun () -> (mk (sec "key" kl) : Block.block_cipher))
  (fun c -> let n = c#blocksize in let b = Bytes.of_string (det (2 * n)) in c#transform b 0 b 0; c#transform b n b n) (fun c -> c#wipe)
let () =
  List.iter (fun kl -> blk ~both:true (Printf.sprintf "aes-enc-%d" kl) kl (new Block.aes_encrypt); blk ~both:true (Printf.sprintf "aes-dec-%d" kl) kl (new Block.aes_decrypt)) [16; 24; 32];
  blk "des-enc" 8 (new Block.des_encrypt); blk "des-dec" 8 (new Block.des_decrypt);
  List.iter (fun kl -> blk (Printf.sprintf "3des-enc-%d" kl) kl (new Block.triple_des_encrypt); blk (Printf.sprintf "3des-dec-%d" kl) kl (new Block.triple_des_decrypt)) [16; 24];
  case "blowfish-enc" (fun () -> new Block.blowfish_encrypt (sec "key" 4)) (fun _ -> ()) (fun c -> c#wipe);
  case "blowfish-dec" (fun () -> new Block.blowfish_decrypt (sec "key" 4)) (fun _ -> ()) (fun c -> c#wipe)
(* chaining modes over an arbitrary cipher: the data is secret *)
let chain name mk = case name (fun () -> (mk (sec "iv" 8) (uc 8 "k") : Block.block_cipher))
  (fun c -> let n = c#blocksize in let b = Bytes.of_string (sec "data" (3 * n)) in for i = 0 to 2 do c#transform b (i * n) b (i * n) done) (fun c -> c#wipe)
let () =
  chain "cbc-enc" (fun iv c -> new Block.cbc_encrypt ~iv c); chain "cbc-dec" (fun iv c -> new Block.cbc_decrypt ~iv c);
  chain "cfb-enc" (fun iv c -> new Block.cfb_encrypt ~iv 3 c); chain "cfb-dec" (fun iv c -> new Block.cfb_decrypt ~iv 5 c);
  chain "cfb8-enc" (fun iv c -> new Block.cfb_encrypt ~iv 8 c); chain "ofb" (fun iv c -> new Block.ofb ~iv 3 c); chain "ctr" (fun iv c -> new Block.ctr ~iv ~inc:1 c)
(* the cipher below a mode is wiped too *)
let () = List.iter (fun (n, mk) -> case ("mode-key-" ^ n) (fun () -> (mk (new Block.des_encrypt (sec "key" 8)) : Block.block_cipher)) (fun _ -> ()) (fun c -> c#wipe))
  [ "cbc-enc", (fun c -> new Block.cbc_encrypt c); "cbc-dec", (fun c -> new Block.cbc_decrypt c); "cfb-enc", (fun c -> new Block.cfb_encrypt 3 c); "cfb-dec", (fun c -> new Block.cfb_decrypt 3 c);
    "ofb", (fun c -> new Block.ofb 3 c); "ctr", (fun c -> new Block.ctr c) ]
(* transforms: before the end (partly filled block, pending output), and after finish *)
let tr ?both name mk n =
  let put (t : transform) = t#put_string (sec "data" n); t#put_substring (Bytes.of_string (sec "more" 5)) 1 3 in
  case ?both (name ^ "-part") mk put (fun t -> t#wipe);
  case ?both (name ^ "-done") mk (fun t -> put t; (try t#finish with Error _ -> ()); ignore (t#get_char)) (fun t -> t#wipe)
let () =
  tr "cipher-cbc" (fun () -> new Block.cipher (new Block.cbc_encrypt (uc 8 "k"))) 21; tr "cipher-pad" (fun () -> new Block.cipher_padded_encrypt Padding.length (uc 8 "k")) 18;
  let idc () : Block.block_cipher = object method blocksize = 8 method transform s o d p = Bytes.blit s o d p 8 method wipe = () end in
  List.iter (fun last -> case (Printf.sprintf "cipher-unpad-%d" (String.length last)) (fun () -> new Block.cipher_padded_decrypt Padding.length (idc ()))
    (fun t -> t#put_string (sec "data" (24 - String.length last)); if last <> "" then (t#put_string last; t#finish; ignore t#get_char)) (fun t -> t#wipe)) [""; "\001"; "\003\003\003"; String.make 8 '\008'];
  tr "stream" (fun () -> new Stream.cipher (new ustream "s")) 20;
  (* more than the initial output buffer: the buffer is enlarged *)
  tr "cipher-long" (fun () -> new Block.cipher (uc 8 "k")) 300; tr "stream-long" (fun () -> new Stream.cipher (new ustream "s")) 300;
  tr "chacha20" (fun () -> Cipher.chacha20 ~iv:(sec "iv" 12) (sec "key" 32) Cipher.Encrypt) 20; tr "chacha20-16" (fun () -> Cipher.chacha20 (sec "key" 16) Cipher.Encrypt) 70;
  tr ~both:true "aes-entry" (fun () -> Sym.set "uf-aes" 1; Cipher.aes ~pad:Padding.length (sec "key" 16) Cipher.Encrypt) 13;
  tr "base64" (fun () -> Base64.encode_multiline ()) 5; tr "hexa" (fun () -> Hexa.encode ()) 5;
  tr "compose" (fun () -> compose (new Block.cipher (uc 4 "k")) (Base64.encode_compact ())) 6;
  case "arcfour" (fun () -> new Stream.arcfour (det 4 ^ sec "key" 1)) (fun _ -> ()) (fun c -> c#wipe);
  case "chacha20-raw" (fun () -> new Stream.chacha20 ~iv:(sec "iv" 8) (sec "key" 32)) (fun c -> let b = Bytes.of_string (sec "data" 70) in c#transform b 0 b 0 70) (fun c -> c#wipe);
  case "arcfour-data" (fun () -> Cipher.arcfour (det 5) Cipher.Encrypt) (fun c -> c#put_string (sec "data" 20)) (fun c -> c#wipe)
(* hashes and MACs: data less than a block, more than a block, and after the result *)
let hs ?both name mk n =
  List.iter (fun k ->
    case ?both (Printf.sprintf "%s-%d" name k) mk (fun (h : hash) -> h#add_string (sec "data" k)) (fun h -> h#wipe);
    case ?both (Printf.sprintf "%s-%d-result" name k) mk (fun (h : hash) -> h#add_string (sec "data" k); ignore h#result) (fun h -> h#wipe)) n
let () =
  List.iter (fun (n, bs, mk) -> hs n mk [3; bs + 5])
    [ "sha1", 64, Hash.sha1; "sha224", 64, Hash.sha224; "sha256", 64, Hash.sha256; "sha384", 128, Hash.sha384; "sha512", 128, Hash.sha512; "ripemd160", 64, Hash.ripemd160; "md5", 64, Hash.md5;
      "blake2b", 128, (fun () -> Hash.blake2b 512); "blake2s", 64, (fun () -> Hash.blake2s 256) ];
  hs "blake3" (fun () -> Hash.blake3 256) [3; 70; 1030]; hs "sha3-256" (fun () -> Hash.sha3 256) [3; 140]; hs "sha3-512" (fun () -> Hash.sha3 512) [3]; hs "keccak" (fun () -> Hash.keccak 224) [100];
  hs "mac-blake2b" (fun () -> MAC.blake2b 512 (sec "key" 64)) [0; 3; 140]; hs "mac-blake2s" (fun () -> MAC.blake2s 256 (sec "key" 20)) [0; 3; 70];
  hs "mac-blake3" (fun () -> MAC.blake3 256 (sec "key" 32)) [3; 70]; hs "siphash" (fun () -> MAC.siphash (sec "key" 16)) [3; 12]; hs "siphash128" (fun () -> MAC.siphash128 (sec "key" 16)) [3; 12];
  List.iter (fun (n, mk) -> hs n (fun () -> mk (sec "key" 20)) [3]; hs (n ^ "-longkey") (fun () -> mk (sec "key" 70)) [3])
    [ "hmac-sha1", MAC.hmac_sha1; "hmac-sha256", MAC.hmac_sha256; "hmac-sha384", MAC.hmac_sha384; "hmac-sha512", MAC.hmac_sha512; "hmac-ripemd160", MAC.hmac_ripemd160; "hmac-md5", MAC.hmac_md5 ];
  hs ~both:true "aes-cmac" (fun () -> Sym.set "uf-aes" 1; MAC.aes_cmac (sec "key" 16)) [3; 20];
  hs "aes-mac" (fun () -> Sym.set "uf-aes" 1; MAC.aes ~pad:Padding.length (sec "key" 16)) [3; 20]; hs "des-mac" (fun () -> MAC.des ~pad:Padding.length (sec "key" 8)) [3];
  hs "des3-mac" (fun () -> MAC.des_final_triple_des ~pad:Padding.length (sec "key" 16)) [3]; hs "3des-mac" (fun () -> MAC.triple_des ~pad:Padding.length (sec "key" 16)) [3];
  hs "mac" (fun () -> new Block.mac ~iv:(sec "iv" 8) ~pad:Padding.length (uc 8 "k")) [3; 8; 19]; hs "mac3" (fun () -> new Block.mac_final_triple ~iv:(sec "iv" 8) ~pad:Padding.length (uc 8 "k") (ud 8 "l") (uc 8 "m")) [19]
(* authenticated transforms *)
let () = List.iter (fun (dn, dir) ->
    List.iter (fun (n, both, mk) ->
      let put (t : authenticated_transform) = t#put_string (sec "data" 21) in
      case ~both (n ^ dn ^ "-part") mk put (fun t -> t#wipe);
      case ~both (n ^ dn ^ "-done") mk (fun t -> put t; ignore t#finish_and_get_tag; ignore t#get_char) (fun t -> t#wipe))
      [ "gcm-", true, (fun () -> Sym.set "uf-aes" 1; AEAD.aes_gcm ~header:(sec "header" 5) ~iv:(sec "iv" 12) (sec "key" 16) dir);
        "gcm-iv16-", false, (fun () -> Sym.set "uf-aes" 1; Sym.set "uf-ghash" 1; AEAD.aes_gcm ~iv:(sec "iv" 16) (det 32) dir);
        "chapoly-", false, (fun () -> Sym.set "words" 1; AEAD.chacha20_poly1305 ~header:(sec "header" 5) ~iv:(sec "iv" 12) (sec "key" 32) dir) ])
    ["enc", AEAD.Encrypt; "dec", AEAD.Decrypt];
  List.iter (fun (n, mk) -> case n (fun () -> (mk () : authenticated_transform)) (fun t -> t#put_string (sec "data" 21)) (fun t -> t#wipe);
    case (n ^ "-done") (fun () -> (mk () : authenticated_transform)) (fun t -> t#put_string (sec "data" 21); ignore t#finish_and_get_tag) (fun t -> t#wipe))
    [ "then-hash", (fun () -> transform_then_hash (new Block.cipher_padded_encrypt Padding.length (uc 8 "k")) (Hash.sha256 ())); "and-hash", (fun () -> transform_and_hash (new Block.cipher_padded_encrypt Padding.length (uc 8 "k")) (Hash.sha256 ())) ]
(* pseudo-random generators *)
let () =
  let draw (r : Random.rng) = r#random_bytes (Bytes.create 40) 3 21 in
  List.iter (fun n -> case (Printf.sprintf "prng-%d" n) (fun () -> Random.pseudo_rng (sec "seed" n)) draw (fun r -> r#wipe)) [16; 20; 32; 40];
  List.iter (fun n -> case ~both:true (Printf.sprintf "prng-aes-%d" n) (fun () -> Random.pseudo_rng_aes_ctr (sec "seed" n)) draw (fun r -> r#wipe)) [16; 20; 32]
(* primitives and key records *)
let () =
  List.iter (fun n ->
    reg (Printf.sprintf "C15.wipe_bytes-%d" n) (fun () -> let b = Bytes.of_string (sec "s" n) in wipe_bytes b; Sym.check_eqb "erased" (Bytes.make n '\000') b);
    reg (Printf.sprintf "C15.wipe_string-%d" n) (fun () -> let s = sec "s" n in wipe_string s; Sym.check_eq "erased" (String.make n '\000') s)) [0; 1; 2; 7; 8; 9; 16; 63; 64; 65; 100];
  reg "C15.rsa-key" (fun () ->
    let s l = sec l 16 in
    let k : RSA.private_key = { size = 128; n = s "n"; d = s "d"; p = sec "p" 8; q = sec "q" 8; dp = sec "dp" 8; dq = sec "dq" 8; qinv = sec "qinv" 8 } in
    RSA.wipe_key k; Sym.check_indep "after wipe" k; List.iter (fun x -> Sym.check_eq "erased" (String.make (String.length x) '\000') x) [k.d; k.p; k.q; k.dp; k.dq; k.qinv]);
  reg "C15.paillier-key" (fun () ->
    let s l = sec l 16 in
    let k : Paillier.private_key = { size = 128; n = s "n"; n2 = sec "n2" 32; p = sec "p" 8; q = sec "q" 8; lambda = s "lambda"; mu = s "mu" } in
    Paillier.wipe_key k; Sym.check_indep "after wipe" k; List.iter (fun x -> Sym.check_eq "erased" (String.make (String.length x) '\000') x) [k.p; k.q; k.lambda; k.mu])
