(* C05: stream ciphers. *)
open Cryptokit
open Hutil

(* the textbook 64-bit (8-byte nonce) or 32-bit (12-byte nonce) block counter as little-endian bytes *)
let le8 (x : int64) = String.init 8 (fun i -> Char.unsafe_chr (Int64.to_int (Int64.shift_right_logical x (8 * i)) land 255))
let chacha key iv ctr d = Sym.spec "chacha" [||] [| key; iv; d; le8 ctr |]

(* how the data goes in: sizes of the successive pieces *)
let splits = [
  "one", [200]; "bytes", [1;1;1;1;1;1]; "odd", [3; 61; 1; 64; 65]; "edge", [63; 1; 64; 0; 1; 128]; "big", [130; 62; 0; 70] ]
let total = List.fold_left (+) 0

(* feed d to the raw cipher in pieces, at odd offsets *)
let feed (c : Stream.stream_cipher) d l =
  let r = Buffer.create 16 and p = ref 0 in
  List.iteri (fun i n ->
    let so = i mod 3 and dofs = (i + 1) mod 4 in
    let src = Bytes.of_string (String.make so '\x11' ^ sub d !p n ^ "zz") in
    let s0 = Bytes.to_string src in
    let dst = Bytes.make (dofs + n + 3) '\x55' in
    c#transform src so dst dofs n;
    Sym.check_eq "source intact" s0 (Bytes.to_string src);
    Sym.check_eq "destination surroundings intact" (String.make (dofs + 3) '\x55') (bsub dst 0 dofs ^ bsub dst (dofs + n) 3);
    Buffer.add_string r (bsub dst dofs n);
    p := !p + n) l;
  Buffer.contents r

let () = List.iter (fun kl -> List.iter (fun il -> List.iter (fun (sn, l) ->
  Sym.register (Printf.sprintf "C05.chacha-k%d-iv%d-%s" kl il sn) (fun () ->
    let k = Sym.string "key" kl and iv = Sym.string "iv" il in
    let d = Sym.string "data" (total l) in
    let c = new Stream.chacha20 ~iv k in
    Sym.check_eq "key stream" (chacha k iv 0L d) (feed c d l))) splits) [8; 12]) [16; 32]
(* default IV and default counter *)
let () = Sym.register "C05.chacha-defaults" (fun () ->
  let k = Sym.string "key" 32 and d = Sym.string "data" 70 in
  Sym.check_eq "defaults" (chacha k (String.make 8 '\000') 0L d) (feed (new Stream.chacha20 k) d [70]);
  Sym.check_eq "counter only" (chacha k (String.make 8 '\000') 5L d) (feed (new Stream.chacha20 ~ctr:5L k) d [70]))
(* counters near the carries, concrete *)
let () = List.iter (fun (n, il, ctr) ->
  Sym.register ("C05.chacha-carry-" ^ n) (fun () ->
    let k = Sym.string "key" 32 and iv = Sym.string "iv" il and d = Sym.string "data" 200 in
    Sym.check_eq "key stream" (chacha k iv ctr d) (feed (new Stream.chacha20 ~iv ~ctr k) d [100; 100])))
  [ "64-lo", 8, 0xFFFFFFFFL; "64-lo1", 8, 0xFFFFFFFEL; "64-mid", 8, 0x12345678FFFFFFFFL; "64-mid1", 8, 0x00FFFFFFFFFFFFFEL;
    "64-wrap", 8, -1L; "64-wrap2", 8, -2L; "64-big", 8, 0x8000000000000000L; "32-a", 12, 0xFFL; "32-b", 12, 0xFFFFL; "32-c", 12, 0xFFFFFEL ]
(* symbolic starting counter *)
let () = List.iter (fun (il, n) ->
  Sym.register (Printf.sprintf "C05.chacha-ctr-iv%d" il) (fun () ->
    let k = Sym.string "key" 32 and iv = Sym.string "iv" il and d = Sym.string "data" (64 * n) in
    let ctr = Sym.int64 "ctr" in
    if il = 12 then Sym.assume (ctr >= 0L && ctr < 0x1_000_000L);
    Sym.check_eq "key stream" (chacha k iv ctr d) (feed (new Stream.chacha20 ~iv ~ctr k) d [64 * n]))) [8, 2; 12, 2]
(* wrapped as a transform, through Cipher; applying it twice restores the data *)
let () = Sym.register "C05.chacha-entry" (fun () ->
  let k = Sym.string "key" 16 and iv = Sym.string "iv" 12 and d = Sym.string "data" 150 in
  let c = transform_string (Cipher.chacha20 ~iv ~ctr:9L k Cipher.Encrypt) d in
  Sym.check_eq "entry point" (chacha k iv 9L d) c;
  Sym.check_eq "restores" d (transform_string (Cipher.chacha20 ~iv ~ctr:9L k Cipher.Decrypt) c))
let () = Sym.register "C05.chacha-inplace" (fun () ->
  let k = Sym.string "key" 32 and iv = Sym.string "iv" 8 and d = Sym.string "data" 100 in
  let b = Bytes.of_string d in
  let c = new Stream.chacha20 ~iv k in
  c#transform b 0 b 0 37; c#transform b 37 b 37 63;
  Sym.check_eq "in place" (chacha k iv 0L d) (Bytes.to_string b))

(* ARCfour.  The key schedule on symbolic keys is a permutation of 256 symbolic cells: the key is symbolic in its last bytes. *)
let rc4 k d = Sym.spec "rc4" [||] [| k; d |]
let det n = String.init n (fun i -> Char.chr ((i * 167 + 13) land 255))
let () = List.iter (fun kl -> List.iter (fun (sn, l) ->
  Sym.register (Printf.sprintf "C05.rc4-k%d-%s" kl sn) (fun () ->
    let k = det kl in
    let d = Sym.string "data" (total l) in
    Sym.check_eq "key stream" (rc4 k d) (feed (new Stream.arcfour k) d l))) splits) [1; 5; 16; 255; 256]
let () = Sym.register "C05.rc4-long" (fun () ->
  let k = det 16 in
  let d = Sym.string "data" 1000 in
  Sym.check_eq "key stream" (rc4 k d) (feed (new Stream.arcfour k) d [257; 255; 256; 1; 231]))
let () = Sym.register "C05.rc4-entry" (fun () ->
  let k = det 7 in
  let d = Sym.string "data" 300 in
  let c = transform_string (Cipher.arcfour k Cipher.Encrypt) d in
  Sym.check_eq "entry point" (rc4 k d) c;
  Sym.check_eq "restores" d (transform_string (Cipher.arcfour k Cipher.Decrypt) c))
let () = Sym.register "C05.rc4-inplace" (fun () ->
  let k = det 7 in
  let d = Sym.string "data" 50 in
  let b = Bytes.of_string d in
  let c = new Stream.arcfour k in
  c#transform b 0 b 0 20; c#transform b 20 b 20 30;
  Sym.check_eq "in place" (rc4 k d) (Bytes.to_string b))
(* a key whose last byte is arbitrary: decided for each of its 256 values *)
let () = Sym.register "C05.rc4-lastbyte" (fun () ->
  let v = Sym.choose "last" 0 255 in
  let k = det 4 ^ String.make 1 (Char.chr v) in
  let d = Sym.string "data" 20 in
  Sym.check_eq "key stream" (rc4 k d) (feed (new Stream.arcfour k) d [20]))
let () = Sym.register "+C05.rc4-symkey" (fun () ->
  let k = Sym.string "key" 3 in
  let d = Sym.string "data" 2 in
  Sym.check_eq "key stream" (rc4 k d) (feed (new Stream.arcfour k) d [2]))
(* the Stream.cipher wrapper over an arbitrary stream cipher *)
let () = Sym.register "C05.wrapper" (fun () ->
  let n = Sym.choose "n" 0 12 and m = Sym.choose "m" 0 6 in
  let d = Sym.string "data" (n + m + 1) in
  let t = new Stream.cipher (new ustream "k") in
  t#put_substring (Bytes.of_string ("qq" ^ sub d 0 n ^ "rr")) 2 n;
  t#put_char d.[n];
  t#put_string (sub d (n + 1) m);
  t#finish;
  let e = String.init (n + m + 1) (fun i -> Char.unsafe_chr (Char.code d.[i] lxor Char.code (Sym.uf "ks:k" 1 [| string_of_int i |]).[0])) in
  Sym.check_eq "wrapper" e t#get_string)
