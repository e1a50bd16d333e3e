(* C07: hash functions against their standards.  C06: independence of how the bytes are added. *)
open Cryptokit
open Hutil
let rec has s sub i = i + String.length sub <= String.length s && (String.sub s i (String.length sub) = sub || has s sub (i + 1))
let reg n f = Sym.register n (fun () -> if not (has n "cbcmac" 0 || has n "cmac" 0) then Sym.set "words" 1; f ())
let sp n i l = Sym.spec n i l
type alg = { n : string; bs : int; mk : unit -> hash; spec : string -> string; size : int }
let md n bs mk size = { n; bs; mk; spec = (fun m -> sp n [||] [| m |]); size }
let k3 n bits mk = { n = Printf.sprintf "%s-%d" n bits; bs = 200 - bits / 4; mk = (fun () -> mk bits); spec = (fun m -> sp n [| bits |] [| m |]); size = bits / 8 }
let bl n bs bits mk = { n = Printf.sprintf "%s-%d" n bits; bs; mk; spec = (fun m -> sp n [| bits |] [| m; "" |]); size = bits / 8 }
let core = [
  md "sha1" 64 (fun () -> Hash.sha1 ()) 20; md "sha224" 64 (fun () -> Hash.sha224 ()) 28; md "sha256" 64 (fun () -> Hash.sha256 ()) 32;
  md "sha384" 128 (fun () -> Hash.sha384 ()) 48; md "sha512" 128 (fun () -> Hash.sha512 ()) 64;
  md "ripemd160" 64 (fun () -> Hash.ripemd160 ()) 20; md "md5" 64 (fun () -> Hash.md5 ()) 16;
  k3 "sha3" 224 Hash.sha3; k3 "sha3" 256 Hash.sha3; k3 "sha3" 384 Hash.sha3; k3 "sha3" 512 Hash.sha3; k3 "keccak" 256 Hash.keccak;
  bl "blake2b" 128 512 (fun () -> Hash.blake2b512 ()); bl "blake2s" 64 256 (fun () -> Hash.blake2s256 ()); bl "blake3" 64 256 (fun () -> Hash.blake3_256 ()) ]
let more = [
  k3 "keccak" 224 Hash.keccak; k3 "keccak" 384 Hash.keccak; k3 "keccak" 512 Hash.keccak;
  { (md "sha224" 64 (fun () -> Hash.sha2 224) 28) with n = "sha2-224" }; { (md "sha256" 64 (fun () -> Hash.sha2 256) 32) with n = "sha2-256" };
  { (md "sha384" 128 (fun () -> Hash.sha2 384) 48) with n = "sha2-384" }; { (md "sha512" 128 (fun () -> Hash.sha2 512) 64) with n = "sha2-512" };
  bl "blake2b" 128 8 (fun () -> Hash.blake2b 8); bl "blake2b" 128 160 (fun () -> Hash.blake2b 160); bl "blake2b" 128 504 (fun () -> Hash.blake2b 504);
  bl "blake2s" 64 8 (fun () -> Hash.blake2s 8); bl "blake2s" 64 128 (fun () -> Hash.blake2s 128); bl "blake2s" 64 248 (fun () -> Hash.blake2s 248);
  bl "blake3" 64 8 (fun () -> Hash.blake3 8); bl "blake3" 64 512 (fun () -> Hash.blake3 512); bl "blake3" 64 520 (fun () -> Hash.blake3 520); bl "blake3" 64 1800 (fun () -> Hash.blake3 1800) ]
let rec upto a b = if a > b then [] else a :: upto (a + 1) b
let rec take n l = if n = 0 then [] else match l with [] -> [] | x :: r -> x :: take (n - 1) r
let rec drop n l = if n = 0 then l else match l with [] -> [] | _ :: r -> drop (n - 1) r
let rec groups n l = if l = [] then [] else take n l :: groups n (drop n l)
let c07 a l =
  let m = Sym.string "msg" l in
  Sym.check_eq (Printf.sprintf "digest of %d bytes" l) (a.spec m) (hash_string (a.mk ()) m)
let () = List.iter (fun a ->
    let ls = if a.n = "blake3-256" then upto 0 150 else upto 0 (2 * a.bs + 2) in
    (* every length modulo the block size; spread over scenarios *)
    let quick = if a.bs > 64 then List.filter (fun l -> l <= a.bs + 2 || l >= 2 * a.bs - 2) ls else ls in
    List.iteri (fun i g -> reg (Printf.sprintf "C07.%s-len%d-%d" a.n (List.hd g) (List.hd (List.rev g))) (fun () -> List.iter (c07 a) g)) (groups 8 quick);
    if quick <> ls then
      List.iter (fun g -> reg (Printf.sprintf "+C07.%s-len%d-%d" a.n (List.hd g) (List.hd (List.rev g))) (fun () -> List.iter (c07 a) g))
        (groups 8 (List.filter (fun l -> not (List.mem l quick)) ls))) core
let () = List.iter (fun a ->
    reg (Printf.sprintf "C07.%s" a.n) (fun () -> List.iter (c07 a) [0; 1; a.bs - 9; a.bs - 1; a.bs; a.bs + 1; 2 * a.bs])) more
(* every BLAKE2 / BLAKE3 output size *)
let () = List.iter (fun g -> reg (Printf.sprintf "C07.blake2b-sizes-%d" (List.hd g)) (fun () ->
    let m = Sym.string "msg" 5 in
    List.iter (fun i -> Sym.check_eq "size" (sp "blake2b" [| 8 * i |] [| m; "" |]) (hash_string (Hash.blake2b (8 * i)) m)) g)) (groups 16 (upto 1 64));
  reg "C07.blake2s-sizes" (fun () ->
    let m = Sym.string "msg" 5 in
    List.iter (fun i -> Sym.check_eq "size" (sp "blake2s" [| 8 * i |] [| m; "" |]) (hash_string (Hash.blake2s (8 * i)) m)) (upto 1 32));
  reg "C07.blake3-sizes" (fun () ->
    let m = Sym.string "msg" 5 in
    List.iter (fun i -> Sym.check_eq "size" (sp "blake3" [| 8 * i |] [| m; "" |]) (hash_string (Hash.blake3 (8 * i)) m)) (upto 1 70 @ [127; 128; 129; 200]))
(* the BLAKE3 tree *)
let () = List.iter (fun (q, l) ->
    reg (Printf.sprintf "%sC07.blake3-tree-%d" (if q then "" else "+") l) (fun () ->
      let m = Sym.string "msg" l in
      Sym.check_eq "digest" (sp "blake3" [| 512 |] [| m; "" |]) (hash_string (Hash.blake3 512) m);
      if l > 1 then begin
        let h = Hash.blake3 256 in
        h#add_string (sub m 0 (l / 2 + 1)); h#add_string (sub m (l / 2 + 1) (l - l / 2 - 1));
        Sym.check_eq "in two pieces" (sp "blake3" [| 256 |] [| m; "" |]) h#result
      end))
  [ true, 1023; true, 1024; true, 1025; true, 2047; true, 2048; true, 2049; true, 3072; true, 3073; true, 4096; true, 4097; true, 5121; true, 6145; true, 7169; true, 8193; false, 16385; false, 20000 ]

(* length counters: find the low word of the counter in the context by watching it, set it to an arbitrary value, go on *)
let word b o w = let r = ref 0 in for i = w - 1 downto 0 do r := (!r lsl 8) lor Char.code (Bytes.get b (o + i)) done; !r
let find_counter mk w f =
  let snaps = List.map (fun k -> let h = mk () in let n, v = f k in h#add_string (String.make n '\000'); (Bytes.to_string (Sym.ctx h 40), v)) [1; 2; 3] in
  let len = String.length (fst (List.hd snaps)) in
  let rec go o =
    if o + w > len then -1
    else if List.for_all (fun (s, v) -> word (Bytes.of_string s) o w = v) snaps then o
    else go (o + w) in
  if len = 0 then -1 else go 0
let put_counter b o w s = for i = 0 to w - 1 do Bytes.set b (o + i) s.[w - 1 - i] done
let () = List.iter (fun (n, bs, w, mk, size) ->
    List.iter (fun extra ->
      reg (Printf.sprintf "C07.%s-counter-%d" n extra) (fun () ->
        let o = find_counter mk w (fun k -> (k * bs, 8 * k * bs)) in
        if o < 0 then (Sym.reach ("no counter found: " ^ n); Sym.check "layout" true)
        else begin
          let h : hash = mk () in
          let pre = String.make bs '\000' in
          h#add_string pre;
          let hi = Sym.string "counter" (w - 2) in
          let l = hi ^ "\xfe\x00" in
          put_counter (Sym.ctx h 40) o w l;
          let d = Sym.string "msg" extra in
          h#add_string (sub d 0 3); h#add_string (sub d 3 (extra - 3));
          Sym.check_eq "digest with a large length counter" (sp (n ^ "_from") [||] [| pre; d; l |]) h#result
        end)) [5; bs + 5; 2 * bs + 5])
  [ "sha1", 64, 4, (fun () -> Hash.sha1 ()), 20; "sha224", 64, 4, (fun () -> Hash.sha224 ()), 28; "sha256", 64, 4, (fun () -> Hash.sha256 ()), 32;
    "sha384", 128, 8, (fun () -> Hash.sha384 ()), 48; "sha512", 128, 8, (fun () -> Hash.sha512 ()), 64; "ripemd160", 64, 4, (fun () -> Hash.ripemd160 ()), 20 ];
  List.iter (fun (n, bs, w, mk, bits) ->
    List.iter (fun extra ->
      reg (Printf.sprintf "C07.%s-counter-%d" n extra) (fun () ->
        let o = find_counter mk w (fun k -> (k * bs + 1, k * bs)) in
        if o < 0 then (Sym.reach ("no counter found: " ^ n); Sym.check "layout" true)
        else begin
          let h : hash = mk () in
          h#add_string (String.make (bs + 1) '\000');
          let hi = if w = 8 then "\xff\xff\xff\xff\xff" ^ Sym.string "counter" 2 else Sym.string "counter" (w - 1) in
          let l = hi ^ "\x80" in
          put_counter (Sym.ctx h 40) o w l;
          let d = Sym.string "msg" extra in
          h#add_string d;
          Sym.check_eq "digest with a large length counter" (sp (n ^ "_from") [| bits |] [| String.make bs '\000'; "\000" ^ d; l |]) h#result
        end)) [5; bs + 5; 2 * bs + 5])
  [ "blake2b", 128, 8, (fun () -> Hash.blake2b512 ()), 512; "blake2s", 64, 4, (fun () -> Hash.blake2s256 ()), 256 ]

(* ------------------------------------------------------------------ C06 *)
let key16 = String.init 16 (fun i -> Char.chr (i * 17 land 255))
let det n = String.init n (fun i -> Char.chr ((i * 91 + 5) land 255))
let algs6 =
  List.map (fun a -> a.n, a.bs, a.mk) core
  @ [ "hmac-sha256", 64, (fun () -> MAC.hmac_sha256 (det 20)); "hmac-sha1", 64, (fun () -> MAC.hmac_sha1 (det 20)); "hmac-sha512", 128, (fun () -> MAC.hmac_sha512 (det 20));
      "hmac-sha384", 128, (fun () -> MAC.hmac_sha384 (det 20)); "hmac-md5", 64, (fun () -> MAC.hmac_md5 (det 3)); "hmac-ripemd160", 64, (fun () -> MAC.hmac_ripemd160 (det 3));
      "mac-blake2b", 128, (fun () -> MAC.blake2b512 (det 9)); "mac-blake2s", 64, (fun () -> MAC.blake2s256 (det 9)); "mac-blake3", 64, (fun () -> MAC.blake3_256 (det 32));
      "aes-cmac", 16, (fun () -> MAC.aes_cmac (det 16));
      "cbcmac-aes", 16, (fun () -> MAC.aes ~pad:Padding.length (det 16));
      "cbcmac8", 8, (fun () -> new Block.mac ~pad:Padding._8000 (uc 8 "k")); "cbcmac16", 16, (fun () -> new Block.mac ~pad:Padding.length (uc 16 "k"));
      "cbcmac-final", 8, (fun () -> new Block.mac_final_triple ~pad:Padding.length (uc ~n:"A" 8 "k") (ud ~n:"B" 8 "k") (uc ~n:"C" 8 "k"));
      "siphash", 8, (fun () -> MAC.siphash (det 16)); "siphash128", 8, (fun () -> MAC.siphash128 (det 16)) ]
(* n1, n2, n3: sizes of the pieces *)
let c06 n mk (n1, n2, n3) =
  let d = Sym.string "msg" (n1 + n2 + n3) in
  let one = hash_string (mk ()) d in
  let h : hash = mk () in
  h#add_string (sub d 0 n1);
  (* a substring surrounded by arbitrary bytes, in a buffer of its own; the buffer is then overwritten *)
  let l = Sym.string "left" 3 and r = Sym.string "right" 2 in
  let b = Bytes.of_string (l ^ sub d n1 n2 ^ r) in
  h#add_substring b 3 n2;
  Sym.check_eqb "argument not modified" (Bytes.of_string (l ^ sub d n1 n2 ^ r)) b;
  Bytes.fill b 0 (Bytes.length b) '\xEE';
  h#add_string "";
  h#add_substring (Bytes.of_string (sub d (n1 + n2) n3)) 0 n3;
  Sym.check_eq (Printf.sprintf "pieces %d,%d,%d" n1 n2 n3) one h#result
let dedup l = List.sort_uniq compare l
let () = List.iter (fun (n, bs, mk) ->
    (* the HMAC and keyed variants share their block handling with the plain hash: the boundary cases only *)
    let derived = has n "hmac" 0 || has n "mac-" 0 || n = "sha224" || n = "sha384" in
    let n1s = if derived then dedup [1; bs - 1; bs] else dedup [0; 1; bs - 1; bs; bs + 1] in
    let combos = List.concat_map (fun n1 ->
        let r = (bs - n1 mod bs) in
        let edge = [r - 1; r; r + 1] in
        let n2s = dedup (List.filter (fun x -> x >= 0) (edge @ if derived then [r + bs] else [0; 1; r + bs - 1; r + bs; r + bs + 1])) in
        List.concat_map (fun n2 -> List.map (fun n3 -> (n1, n2, n3)) (if List.mem n2 edge then [0; 3] else [0])) n2s) n1s in
    List.iteri (fun i g -> reg (Printf.sprintf "C06.%s-pieces-%d" n i) (fun () -> List.iter (c06 n mk) g)) (groups 12 combos);
    (* one byte at a time through add_char / add_byte *)
    reg (Printf.sprintf "C06.%s-bytes" n) (fun () ->
      let l = 2 * bs + 3 in
      let d = Sym.string "msg" l in
      let h : hash = mk () in
      String.iteri (fun i c -> if i land 1 = 0 then h#add_char c else h#add_byte (Char.code c)) d;
      Sym.check_eq "byte by byte" (hash_string (mk ()) d) h#result);
    (* two instances fed alternately *)
    reg (Printf.sprintf "C06.%s-interleaved" n) (fun () ->
      let a = Sym.string "a" (bs + 7) and b = Sym.string "b" (bs + 9) in
      let ra = hash_string (mk ()) a and rb = hash_string (mk ()) b in
      let h1 : hash = mk () and h2 : hash = mk () in
      h1#add_string (sub a 0 5); h2#add_string (sub b 0 9); h1#add_string (sub a 5 bs); h2#add_string (sub b 9 bs);
      h1#add_string (sub a (bs + 5) 2);
      let r1 = h1#result in
      h1#wipe;
      Sym.check_eq "first instance" ra r1;
      Sym.check_eq "second instance" rb h2#result);
    (* thorough: every fill level followed by every piece length up to the next-but-one boundary *)
    List.iter (fun n1 ->
      reg (Printf.sprintf "+C06.%s-all-%d" n n1) (fun () ->
        List.iter (fun n2 -> c06 n mk (n1, n2, 2)) (upto 0 (2 * bs + 1 - n1)))) (upto 0 bs);
    (* channel reading and hash_string agree *)
    ()) algs6
(* pieces longer than a BLAKE3 chunk *)
let () = List.iter (fun (n1, n2, n3) -> reg (Printf.sprintf "C06.blake3-chunks-%d-%d-%d" n1 n2 n3) (fun () -> c06 "blake3" (fun () -> Hash.blake3_256 ()) (n1, n2, n3)))
  [1023, 1, 1; 1024, 0, 1; 1, 1023, 1; 1, 1024, 1024; 1000, 2100, 30; 2048, 1024, 1; 1024, 2048, 1025; 3, 5000, 200]
