(* C09: AES-GCM and ChaCha20-Poly1305 against SP 800-38D and RFC 8439.  C10: tag checking. *)
open Cryptokit
open Hutil
type ghash_ctx
external ghash_init : bytes -> ghash_ctx = "caml_ghash_init"
external ghash_mult : ghash_ctx -> bytes -> unit = "caml_ghash_mult"
external poly_init : bytes -> bytes = "caml_poly1305_init"
external poly_update : bytes -> bytes -> int -> int -> unit = "caml_poly1305_update"
external poly_final : bytes -> string = "caml_poly1305_final"
let rec upto a b = if a > b then [] else a :: upto (a + 1) b
(* the field multiplication, accelerated and portable *)
let () = List.iter (fun hw ->
    Sym.register (Printf.sprintf "C09.ghash-mult-hw%d" hw) (fun () ->
      Sym.set "hw" hw;
      let h = Sym.string "h" 16 and x = Sym.string "x" 16 in
      let b = Bytes.of_string x in
      let c = ghash_init (Bytes.of_string h) in
      ghash_mult c b;
      Sym.check_eq "product in GF(2^128)" (Sym.spec "gmul" [||] [| x; h |]) (Bytes.to_string b);
      let y = Sym.string "y" 16 in
      let b = Bytes.of_string y in
      ghash_mult c b;
      Sym.check_eq "second product with the same key" (Sym.spec "gmul" [||] [| y; h |]) (Bytes.to_string b))) [0; 1];
  Sym.register "C21.ghash" (fun () ->
      let h = Sym.string "h" 16 and x = Sym.string "x" 16 in
      Sym.set "hw" 1;
      let b1 = Bytes.of_string x in
      ghash_mult (ghash_init (Bytes.of_string h)) b1;
      Sym.set "hw" 0;
      let b2 = Bytes.of_string x in
      ghash_mult (ghash_init (Bytes.of_string h)) b2;
      Sym.check_eqb "accelerated = portable" b1 b2)

(* reference AES-GCM over abstract block cipher and field product *)
let aes k b = Sym.uf (Printf.sprintf "real:aes%d" (String.length k)) 16 [| k; b |]
let gmul h x = Sym.uf "real:gmul" 16 [| h; x |]
let pad16 s = s ^ String.make ((16 - String.length s land 15) land 15) '\000'
let ghash h s = List.fold_left (fun y b -> gmul h (xors y b)) (String.make 16 '\000') (blocks 16 s)
let be64 n = String.init 8 (fun i -> Char.unsafe_chr ((n lsr (8 * (7 - i))) land 255))
let le64 n = String.init 8 (fun i -> Char.unsafe_chr ((n lsr (8 * i)) land 255))
let inc32 c n = Sym.spec "be_add" [| n |] [| sub c 12 4 |]
let gcm k iv a p dec =
  let h = aes k (String.make 16 '\000') in
  let j0 = if String.length iv = 12 then iv ^ "\000\000\000\001" else ghash h (pad16 iv ^ String.make 8 '\000' ^ be64 (8 * String.length iv)) in
  let ctr i = sub j0 0 12 ^ inc32 j0 i in
  let l = String.length p in
  let ks = cat (List.init ((l + 15) / 16) (fun i -> aes k (ctr (i + 1)))) in
  let o = xors p (sub ks 0 l) in
  let c = if dec then p else o in
  (o, xors (ghash h (pad16 a ^ pad16 c ^ be64 (8 * String.length a) ^ be64 (8 * l))) (aes k j0))
let run (t : authenticated_transform) p pieces =
  let b = Buffer.create 16 in
  let pos = ref 0 in
  List.iter (fun n ->
    let n = min n (String.length p - !pos) in
    t#put_substring (Bytes.of_string ("#" ^ sub p !pos n)) 1 n; pos := !pos + n;
    if n land 1 = 1 then Buffer.add_string b t#get_string) pieces;
  t#put_string (sub p !pos (String.length p - !pos));
  let tag = t#finish_and_get_tag in
  Buffer.add_string b t#get_string;
  (Buffer.contents b, tag)
let gcm_case kl ivl al pl pieces =
  let k = Sym.string "key" kl and iv = Sym.string "iv" ivl and a = Sym.string "header" al and p = Sym.string "data" pl in
  List.iter (fun (n, dec, dir) ->
    let eo, et = gcm k iv a p dec in
    let t = if al = 0 then AEAD.aes_gcm ~iv k dir else AEAD.aes_gcm ~header:a ~iv k dir in
    let o, tag = run t p pieces in
    Sym.check_eq (Printf.sprintf "%s output (iv %d, header %d, data %d)" n ivl al pl) eo o;
    Sym.check_eq (Printf.sprintf "%s tag (iv %d, header %d, data %d)" n ivl al pl) et tag)
    ["encrypt", false, AEAD.Encrypt; "decrypt", true, AEAD.Decrypt]
let gcm_setup () = Sym.set "uf-aes" 1; Sym.set "uf-ghash" 1
let () =
  List.iter (fun kl ->
    List.iter (fun (ivl, al, pl, pc) -> Sym.register (Printf.sprintf "C09.gcm-key%d-%d-%d" kl ivl pl) (fun () -> gcm_setup (); gcm_case kl ivl al pl pc))
        [12, 0, 0, []; 12, 16, 16, [3]; 12, 5, 40, [1; 16; 2]; 16, 20, 17, [5]; 8, 0, 1, [1]]) [16; 24; 32];
  List.iter (fun pl -> Sym.register (Printf.sprintf "C09.gcm-data%d" pl) (fun () -> gcm_setup (); gcm_case 16 12 7 pl []; gcm_case 16 12 7 pl [pl / 2; 1])) (upto 0 50);
  List.iter (fun al -> Sym.register (Printf.sprintf "C09.gcm-header%d" al) (fun () -> gcm_setup (); gcm_case 16 12 al 9 [4])) (upto 0 49);
  List.iter (fun ivl -> Sym.register (Printf.sprintf "%sC09.gcm-iv%d" (if List.mem ivl [1; 11; 12; 13; 16; 17; 33; 60] then "" else "+") ivl) (fun () -> gcm_setup (); gcm_case 16 ivl 3 (if ivl mod 4 = 1 then 35 else 17) [4])) (upto 1 34 @ [47; 48; 49; 60; 64])
(* decryption inverts encryption and reproduces the tag *)
let aead = [ "gcm", 16, 12, (fun ?header ~iv k d -> AEAD.aes_gcm ?header ~iv k d); "gcm", 32, 16, (fun ?header ~iv k d -> AEAD.aes_gcm ?header ~iv k d);
  "chapoly", 32, 12, (fun ?header ~iv k d -> AEAD.chacha20_poly1305 ?header ~iv k d); "chapoly", 32, 8, (fun ?header ~iv k d -> AEAD.chacha20_poly1305 ?header ~iv k d);
  "chapoly", 16, 8, (fun ?header ~iv k d -> AEAD.chacha20_poly1305 ?header ~iv k d) ]
let setup n = if n = "gcm" then gcm_setup () else (Sym.set "uf-poly" 1; Sym.set "words" 1)
let () = List.iter (fun (n, kl, ivl, f) ->
    List.iter (fun pl -> Sym.register (Printf.sprintf "C09.%s-roundtrip-%d-%d-data%d" n kl ivl pl) (fun () -> setup n;
        let k = Sym.string "key" kl and iv = Sym.string "iv" ivl and a = Sym.string "header" 9 and p = Sym.string "data" pl in
        let c, t = run (f ?header:(Some a) ~iv k AEAD.Encrypt) p [pl / 3] in
        let p', t' = run (f ?header:(Some a) ~iv k AEAD.Decrypt) c [pl / 2] in
        Sym.check_eq (Printf.sprintf "decryption of %d bytes" pl) p p';
        Sym.check_eq (Printf.sprintf "tag of %d bytes" pl) t t';
        Sym.check_eq "one-shot encryption" (c ^ t) (auth_transform_string (f ?header:(Some a) ~iv k AEAD.Encrypt) p);
        Sym.check_eq "detached tag" t (snd (auth_transform_string_detached (f ?header:(Some a) ~iv k AEAD.Encrypt) p));
        Sym.check_eq "detached output" c (fst (auth_transform_string_detached (f ?header:(Some a) ~iv k AEAD.Encrypt) p))))
      (if ivl = 16 then [0; 1; 16; 17] else [0; 1; 15; 16; 17; 33; 64; 65; 100])) aead
(* ChaCha20-Poly1305 *)
let poly k m = Sym.uf (Printf.sprintf "real:poly1305_%d" (String.length m)) 16 [| k; m |]
let chapoly k iv a p dec =
  let ks l = Sym.spec "chacha" [||] [| k; iv; String.make l (Char.chr 0); String.make 8 (Char.chr 0) |] in
  let l = String.length p in
  let st = ks (64 + l) in
  let otk = sub st 0 32 in
  let o = xors p (sub st 64 l) in
  let c = if dec then p else o in
  (o, poly otk (pad16 a ^ pad16 c ^ le64 (String.length a) ^ le64 l))
let cp_case kl ivl al pl pieces =
  let k = Sym.string "key" kl and iv = Sym.string "iv" ivl and a = Sym.string "header" al and p = Sym.string "data" pl in
  List.iter (fun (n, dec, dir) ->
    let eo, et = chapoly k iv a p dec in
    let t = if al = 0 then AEAD.chacha20_poly1305 ~iv k dir else AEAD.chacha20_poly1305 ~header:a ~iv k dir in
    let o, tag = run t p pieces in
    Sym.check_eq (Printf.sprintf "%s output (iv %d, header %d, data %d)" n ivl al pl) eo o;
    Sym.check_eq (Printf.sprintf "%s tag (iv %d, header %d, data %d)" n ivl al pl) et tag)
    ["encrypt", false, AEAD.Encrypt; "decrypt", true, AEAD.Decrypt]
let cp_setup () = Sym.set "uf-poly" 1; Sym.set "words" 1
let () =
  List.iter (fun (kl, ivl) -> Sym.register (Printf.sprintf "C09.chapoly-%d-%d" kl ivl) (fun () -> cp_setup ();
      List.iter (fun (al, pl, pc) -> cp_case kl ivl al pl pc) [0, 0, []; 16, 16, [3]; 5, 70, [1; 63; 2]; 20, 130, [64; 65]; 1, 128, [128]])) [16, 8; 32, 8; 32, 12];
  List.iter (fun pl -> Sym.register (Printf.sprintf "C09.chapoly-data%d" pl) (fun () -> cp_setup (); cp_case 32 12 7 pl [pl / 2; 1])) (upto 0 34 @ [47; 48; 49; 63; 64; 65; 127; 128; 129]);
  List.iter (fun al -> Sym.register (Printf.sprintf "C09.chapoly-header%d" al) (fun () -> cp_setup (); cp_case 32 12 al 9 [4])) (upto 0 34)
(* Poly1305 itself: every message and pad for multipliers r that are powers of two (no multiplication left for the solver) *)
let poly_run k m pieces =
  let c = poly_init (Bytes.of_string k) in
  let pos = ref 0 in
  List.iter (fun n -> let n = min n (String.length m - !pos) in poly_update c (Bytes.of_string ("ab" ^ m)) (2 + !pos) n; pos := !pos + n) pieces;
  poly_update c (Bytes.of_string m) !pos (String.length m - !pos);
  poly_final c
let () = List.iter (fun (rb, rv) -> List.iter (fun l ->
    Sym.register (Printf.sprintf "%sC09.poly1305-r%d-%d-len%d" (if l <= 15 || rb = 0 && l <= 17 || rb = 0 && rv = 1 && l <= 32 then "" else "+") rb rv l) (fun () ->
      let r = String.init 16 (fun i -> if i = rb then Char.chr rv else '\000') in
      let k = r ^ Sym.string "pad" 16 in
      let m = Sym.string "msg" l in
      Sym.check_eq "tag" (Sym.spec "poly1305" [||] [| k; m |]) (poly_run k m []))) [1; 15; 16; 17; 32; 33; 48])
  [0, 1; 0, 2; 5, 16; 8, 4; 11, 1; 15, 8]
(* any key: the tag does not depend on how the message is cut *)
let () = List.iter (fun (l, ps) -> Sym.register (Printf.sprintf "C09.poly1305-pieces-%d" l) (fun () -> Sym.set "words" 1;
    let k = Sym.string "key" 32 and m = Sym.string "msg" l in
    let one = poly_run k m [] in
    List.iter (fun p -> Sym.check_eq (String.concat "," (List.map string_of_int p)) one (poly_run k m p)) ps))
  [ 15, [[1]; [14]; [7; 0; 7]]; 16, [[1]; [15]; [16]; [8; 8]]; 17, [[1]; [15; 1]; [16]; [15; 2]; [1; 16]]; 33, [[1; 16]; [15; 17]; [16; 16]; [32]; [31; 1]; [17; 15]; [1; 31]; [15; 1; 1; 16]]; 50, [[1; 48]; [15; 33]; [20; 20; 3]; [47]; [33; 15; 1]] ]
(* ------------------------------------------------------------------ C10: exactly the right tag is accepted *)
let check_tag name (mk : unit -> authenticated_transform) ts l =
  let s = Sym.string "input" l in
  match Sym.attempt (fun () -> auth_check_transform_string (mk ()) s) with
  | Sym.Exn (Error Wrong_data_length) -> Sym.check (Printf.sprintf "%s: %d bytes rejected only when shorter than the tag" name l) (l < ts)
  | Sym.Exn _ -> Sym.fail (name ^ ": unexpected exception")
  | Sym.Val r ->
    Sym.check (Printf.sprintf "%s: %d bytes accepted only with a whole tag" name l) (l >= ts);
    if l >= ts then begin
      let t = mk () in
      t#put_string (sub s 0 (l - ts));
      let tag = t#finish_and_get_tag in
      let p = t#get_string in
      match r with
      | Some p' -> Sym.check (Printf.sprintf "%s: accepted %d bytes, tag right" name l) (tag = sub s (l - ts) ts);
          Sym.check_eq (Printf.sprintf "%s: decryption of %d bytes" name l) p p'
      | None -> Sym.check (Printf.sprintf "%s: rejected %d bytes, tag wrong" name l) (tag <> sub s (l - ts) ts)
    end
let () =
  List.iter (fun l ->
    Sym.register (Printf.sprintf "C10.gcm-len%d" l) (fun () -> gcm_setup ();
      let k = Sym.string "key" 16 and iv = Sym.string "iv" 12 and a = Sym.string "header" 5 in
      check_tag "AES-GCM" (fun () -> AEAD.aes_gcm ~header:a ~iv k AEAD.Decrypt) 16 l);
    Sym.register (Printf.sprintf "C10.chapoly-len%d" l) (fun () -> cp_setup ();
      let k = Sym.string "key" 32 and iv = Sym.string "iv" 12 and a = Sym.string "header" 5 in
      check_tag "ChaCha20-Poly1305" (fun () -> AEAD.chacha20_poly1305 ~header:a ~iv k AEAD.Decrypt) 16 l)) (upto 0 34 @ [47; 48; 49; 80]);
  List.iter (fun ts -> List.iter (fun (n, f) ->
    List.iter (fun l -> Sym.register (Printf.sprintf "C10.%s-tag%d-len%d" n ts l) (fun () -> Sym.set "xlim" 500;
      check_tag n (fun () -> f (new Stream.cipher (new ustream "s") : transform) (new uhash ~size:ts "h" : hash)) ts l)) (upto 0 (ts + 5)))
    ["transform-then-hash", transform_then_hash; "transform-and-hash", transform_and_hash]) [1; 4; 16; 20; 32];
  (* what was produced by the matching encryption is accepted; any change of the tag is not *)
  List.iter (fun (n, kl, ivl, f) -> Sym.register (Printf.sprintf "C10.%s-own-%d-%d" n kl ivl) (fun () -> setup n;
      let k = Sym.string "key" kl and iv = Sym.string "iv" ivl and a = Sym.string "header" 3 in
      List.iter (fun pl ->
        let p = Sym.string "data" pl in
        let s = auth_transform_string (f ?header:(Some a) ~iv k AEAD.Encrypt) p in
        (match auth_check_transform_string (f ?header:(Some a) ~iv k AEAD.Decrypt) s with
         | Some p' -> Sym.check_eq "own output accepted" p p'
         | None -> Sym.fail "own output rejected");
        let m = Sym.string "mask" 16 in
        Sym.assume (m <> String.make 16 '\000');
        match auth_check_transform_string (f ?header:(Some a) ~iv k AEAD.Decrypt) (sub s 0 pl ^ xors (sub s pl 16) m) with
        | Some _ -> Sym.fail "modified tag accepted"
        | None -> Sym.check "modified tag rejected" true) (if ivl = 16 then [1] else [0; 20]))) aead;
  (* real MACs: the advertised size is the size of the tag *)
  List.iter (fun (n, mk) -> Sym.register ("C10.mac-" ^ n) (fun () -> Sym.set "words" 1;
      let t = transform_then_hash (new Stream.cipher (new ustream "s")) (mk ()) in
      let p = Sym.string "data" 5 in
      let c, tag = auth_transform_string_detached t p in
      match auth_check_transform_string (transform_and_hash (new Stream.cipher (new ustream "s")) (mk ())) (c ^ tag) with
      | Some _ -> Sym.check "own output accepted" true
      | None -> Sym.fail "own output rejected"))
    ["sha1", (fun () -> MAC.hmac_sha1 "key"); "sha256", (fun () -> MAC.hmac_sha256 "key"); "sha384", (fun () -> MAC.hmac_sha384 "key"); "sha512", (fun () -> MAC.hmac_sha512 "key");
     "ripemd160", (fun () -> MAC.hmac_ripemd160 "key"); "md5", (fun () -> MAC.hmac_md5 "key"); "sha224", (fun () -> Hash.sha224 ()); "sha3-224", (fun () -> Hash.sha3 224);
     "blake2b", (fun () -> MAC.blake2b 160 "key"); "blake2s", (fun () -> MAC.blake2s 96 "key"); "blake3", (fun () -> MAC.blake3 136 (String.make 32 'k')); "siphash", (fun () -> MAC.siphash (String.make 16 'k')); "siphash128", (fun () -> MAC.siphash128 (String.make 16 'k'))]
