(* C25: every C stub under a collector that moves every object at every allocation; finalisers. *)
open Cryptokit
open Hutil
module F = H_fake
let reg = Sym.register
let det n = String.init n (fun i -> Char.chr ((i * 91 + 5) land 255))
(* the same computation without and with collections at every allocation point of the C code *)
let both name ?(hw = [1]) f =
  List.iter (fun h ->
    reg (Printf.sprintf "C25.%s%s" name (if h = 0 then "-sw" else "")) (fun () ->
      Sym.set "hw" h;
      let k = Sym.string "key" 32 and d = Sym.string "data" 80 in
      Sym.set "gc" 0;
      let want = f k d in
      Sym.set "gc" 1;
      let got = f k d in
      Sym.check_eq "same result" want got;
      Sym.check_eq "again" want (f k d))) hw
let ( % ) s n = sub s 0 n
let h mk = fun k d -> let h : hash = mk k in h#add_string (d % 3); h#add_substring (Bytes.of_string d) 3 70; h#add_char d.[73]; h#add_string (sub d 74 6); let r = h#result in h#wipe; r
let t mk = fun k d -> let c : transform = mk k in c#put_string (d % 3); c#put_substring (Bytes.of_string d) 3 70; c#put_string (sub d 73 7); c#finish; let r = c#get_string in c#wipe; r
let a mk = fun k d -> let c : authenticated_transform = mk k in c#put_string (d % 3); c#put_substring (Bytes.of_string d) 3 61; let t = c#finish_and_get_tag in let r = c#get_string in c#wipe; r ^ t
let () =
  List.iter (fun (n, mk) -> both n (h mk)) [
    "sha1", (fun _ -> Hash.sha1 ()); "sha224", (fun _ -> Hash.sha224 ()); "sha256", (fun _ -> Hash.sha256 ()); "sha384", (fun _ -> Hash.sha384 ()); "sha512", (fun _ -> Hash.sha512 ());
    "sha3-224", (fun _ -> Hash.sha3 224); "sha3-384", (fun _ -> Hash.sha3 384); "keccak", (fun _ -> Hash.keccak 256); "ripemd160", (fun _ -> Hash.ripemd160 ()); "md5", (fun _ -> Hash.md5 ());
    "blake2b", (fun _ -> Hash.blake2b 512); "blake2s", (fun _ -> Hash.blake2s 256); "blake3", (fun _ -> Hash.blake3 256);
    "mac-blake2b", (fun k -> MAC.blake2b 512 k); "mac-blake2s", (fun k -> MAC.blake2s 256 k); "mac-blake3", (fun k -> MAC.blake3 256 k);
    "siphash", (fun k -> MAC.siphash (k % 16)); "siphash128", (fun k -> MAC.siphash128 (k % 16)); "hmac", (fun k -> MAC.hmac_sha256 k); "des-mac", (fun k -> MAC.des ~pad:Padding.length (k % 8)) ];
  both "aes-cmac" ~hw:[0; 1] (fun k d -> Sym.set "uf-aes" 1; h (fun k -> MAC.aes_cmac (k % 16)) k d);
  List.iter (fun (n, kl) ->
    both ("aes-enc-" ^ n) ~hw:[0; 1] (fun k d -> let c = new Block.aes_encrypt (k % kl) in let b = Bytes.of_string (d % 32) in c#transform b 0 b 0; c#transform b 16 b 16; Bytes.to_string b);
    both ("aes-dec-" ^ n) ~hw:[0; 1] (fun k d -> let c = new Block.aes_decrypt (k % kl) in let b = Bytes.of_string (d % 32) in c#transform b 0 b 0; c#transform b 16 b 16; Bytes.to_string b)) ["128", 16; "192", 24; "256", 32];
  both "aes-ctr" ~hw:[0; 1] (t (fun k -> Cipher.aes ~mode:Cipher.CTR (k % 16) Cipher.Encrypt));
  both "des" (t (fun k -> Cipher.des ~mode:Cipher.ECB (k % 8) Cipher.Encrypt)); both "des-dec" (t (fun k -> Cipher.des (k % 8) Cipher.Decrypt));
  both "3des" (fun k _ -> let c = new Block.triple_des_encrypt (k % 24) in let b = Bytes.of_string (det 8) in c#transform b 0 b 0; Bytes.to_string b); both "3des-dec" (fun k d -> t (fun k -> Cipher.triple_des (det 16) Cipher.Decrypt) k d);
  both "blowfish" (fun k d -> let c = new Block.blowfish_encrypt (det 4) in let b = Bytes.of_string (d % 8) in c#transform b 0 b 0; Bytes.to_string b);
  both "blowfish-dec" (fun k d -> let c = new Block.blowfish_decrypt (det 9) in let b = Bytes.of_string (d % 8) in c#transform b 0 b 0; Bytes.to_string b);
  both "arcfour" (t (fun _ -> Cipher.arcfour (det 9) Cipher.Encrypt)); both "chacha20" (t (fun k -> Cipher.chacha20 ~iv:(det 12) ~ctr:7L k Cipher.Encrypt)); both "chacha20-16" (t (fun k -> Cipher.chacha20 (k % 16) Cipher.Encrypt));
  List.iter (fun (n, dir) ->
    both ("gcm-" ^ n) ~hw:[0; 1] (fun k d -> Sym.set "uf-aes" 1; a (fun k -> AEAD.aes_gcm ~header:"abc" ~iv:(det 12) (det 16) dir) k (d % 64));
    both ("chapoly-" ^ n) (fun k d -> Sym.set "words" 1; a (fun k -> AEAD.chacha20_poly1305 ~header:"abc" ~iv:(det 12) (det 32) dir) k (d % 64))) ["enc", AEAD.Encrypt; "dec", AEAD.Decrypt];
  both "prng" (fun k _ -> let r = Random.pseudo_rng k in let s = Random.string r 30 in s ^ Random.string r 50);
  both "prng-aes" ~hw:[0; 1] (fun k _ -> let r = Random.pseudo_rng_aes_ctr k in let s = Random.string r 30 in s ^ Random.string r 20);
  both "xor" (fun k d -> let b = Bytes.of_string d in xor_string k 1 b 3 31; Bytes.to_string b)
(* streams, errors and random sources of the stand-in environment *)
let () =
  let zl gc = Sym.set "gc" gc; F.reset 0 0 0 in
  reg "C25.zlib" (fun () ->
    let d = Sym.string "data" 20 in
    let go gc = zl gc; let c = Zlib.compress () in c#put_string (sub d 0 7); c#flush; c#put_string (sub d 7 13); c#finish; let r = c#get_string in c#wipe; r in
    Sym.check_eq "compress" (go 0) (go 1);
    let go gc = zl gc; let c = Zlib.uncompress () in c#put_string (sub d 0 7); c#flush; c#put_string (sub d 7 13); (try c#finish with Error _ -> ()); let r = c#get_string in c#wipe; r in
    Sym.check_eq "uncompress" (go 0) (go 1));
  for at = 1 to 3 do reg (Printf.sprintf "C25.zlib-error-%d" at) (fun () ->
    Sym.set "gc" 1; F.reset 0 0 at;
    match Sym.attempt (fun () -> let c = Zlib.compress () in c#put_string "abcd"; c#finish; c#get_string) with
    | Exn (Error (Compression_error (f, m))) -> Sym.check "function name" (String.length f > 0); ignore (String.length m)
    | Exn e -> Sym.fail ("other exception " ^ Printexc.to_string e)
    | Val _ -> Sym.check "no error met" true) done;
  reg "C25.system-rng" (fun () -> Sym.set "gc" 1; F.reset 0 0 0; let r = Random.system_rng () in Sym.check "length" (String.length (Random.string r 20) = 20));
  reg "C25.hardware-rng" (fun () -> Sym.set "gc" 1; match Sym.attempt (fun () -> Random.string (Random.hardware_rng ()) 20) with Val s -> Sym.check "length" (String.length s = 20) | Exn e -> Sym.check "refused" (e = Error No_entropy_source))
(* finalisers: once, twice, after wiping, wiping after *)
let fin name ?(hw = 1) mk use wipe =
  let go n f = reg (Printf.sprintf "C25.finalise-%s-%s" name n) (fun () -> Sym.set "hw" hw; F.reset 0 0 0; let o = mk () in use o; f o; Sym.check "contexts found" true) in
  go "once" (fun o -> Sym.check "one context" (Sym.finalise o = 1));
  go "twice" (fun o -> ignore (Sym.finalise o); ignore (Sym.finalise o));
  go "wipe" (fun o -> wipe o; ignore (Sym.finalise o));
  go "wipe-wipe" (fun o -> wipe o; wipe o; ignore (Sym.finalise o); ignore (Sym.finalise o));
  go "after" (fun o -> ignore (Sym.finalise o); wipe o; ignore (Sym.finalise o));
  (* a second object is not affected by the end of the first *)
  if name <> "compress-end" then reg (Printf.sprintf "C25.finalise-%s-two" name) (fun () ->
    Sym.set "hw" hw; F.reset 0 0 0; let o = mk () in let p = mk () in use o; use p; ignore (Sym.finalise o); use p; wipe p; ignore (Sym.finalise p); Sym.check "second context usable" true)
let d40 () = det 40
let () =
  let hh n mk = fin n mk (fun (h : hash) -> h#add_string (d40 ()); ignore h#result; h#add_string "x") (fun h -> h#wipe) in
  hh "sha3" (fun () -> Hash.sha3 256); hh "keccak" (fun () -> Hash.keccak 512); hh "blake3" (fun () -> Hash.blake3 256); hh "mac-blake3" (fun () -> MAC.blake3 256 (det 32));
  fin "ghash" ~hw:0 (fun () -> AEAD.aes_gcm ~iv:(det 12) (det 16) AEAD.Encrypt) (fun c -> c#put_string (d40 ())) (fun c -> c#wipe);
  fin "compress" (fun () -> Zlib.compress ()) (fun c -> c#put_string (d40 ())) (fun c -> c#wipe);
  fin "uncompress" (fun () -> Zlib.uncompress ()) (fun c -> c#put_string (d40 ())) (fun c -> c#wipe);
  fin "compress-end" (fun () -> Zlib.compress ()) (fun c -> c#put_string (d40 ()); try c#finish with Error _ -> ()) (fun c -> c#wipe)
