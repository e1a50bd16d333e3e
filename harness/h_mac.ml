(* C08: message authentication codes against their definitions *)
open Cryptokit
open Hutil
let sp n i l = Sym.spec n i l
let reg ?(words = false) n f = Sym.register n (fun () -> if words then Sym.set "words" 1; f ())
(* HMAC: keys of every interesting length, symbolic; messages around the block boundary *)
let () = List.iter (fun (n, bs, mk) ->
    let sc t kls mls q = List.iter (fun kl -> reg ~words:true (Printf.sprintf "%sC08.hmac-%s-key%d%s" q n kl t) (fun () ->
        let k = Sym.string "key" kl in
        List.iter (fun l ->
          let m = Sym.string "msg" l in
          let h : hash = mk k in
          if l > 1 then (h#add_string (sub m 0 (l / 2)); h#add_string (sub m (l / 2) (l - l / 2))) else h#add_string m;
          Sym.check_eq (Printf.sprintf "HMAC of %d bytes" l) (sp ("hmac_" ^ n) [||] [| k; m |]) h#result) mls)) kls in
    sc "" [0; 1; 20; bs - 1; bs; bs + 1; 2 * bs; 2 * bs + 9] [0; 1; bs / 2; bs - 9; bs - 8; bs - 1; bs; bs + 1] "";
    sc "-more" [2; 16; 32; 63; 65; 100; 200] [2; 3; bs - 10; bs - 7; 2 * bs - 1; 2 * bs; 2 * bs + 1] "+")
  [ "sha1", 64, MAC.hmac_sha1; "sha256", 64, MAC.hmac_sha256; "sha384", 128, MAC.hmac_sha384; "sha512", 128, MAC.hmac_sha512;
    "ripemd160", 64, MAC.hmac_ripemd160; "md5", 64, MAC.hmac_md5 ]
(* keyed BLAKE and SipHash *)
let mac_case n mk spec kls mls q = List.iter (fun kl -> reg ~words:true (Printf.sprintf "%sC08.%s-key%d" q n kl) (fun () ->
    let k = Sym.string "key" kl in
    List.iter (fun l ->
      let m = Sym.string "msg" l in
      let h : hash = mk k in
      if l > 1 then (h#add_string (sub m 0 (l / 2)); h#add_string (sub m (l / 2) (l - l / 2))) else h#add_string m;
      Sym.check_eq (Printf.sprintf "MAC of %d bytes" l) (spec k m) h#result) mls)) kls
let rec upto a b = if a > b then [] else a :: upto (a + 1) b
let () =
  mac_case "blake2b512" MAC.blake2b512 (fun k m -> sp "blake2b" [| 512 |] [| m; k |]) [1; 32; 63; 64] [0; 1; 127; 128; 129] "";
  mac_case "blake2b160" (MAC.blake2b 160) (fun k m -> sp "blake2b" [| 160 |] [| m; k |]) [1; 33; 64] [0; 128] "";
  mac_case "blake2s256" MAC.blake2s256 (fun k m -> sp "blake2s" [| 256 |] [| m; k |]) [1; 16; 31; 32] [0; 1; 63; 64; 65; 129] "";
  mac_case "blake2s128" (MAC.blake2s 128) (fun k m -> sp "blake2s" [| 128 |] [| m; k |]) [1; 17; 32] [0; 64] "";
  mac_case "blake2b512" MAC.blake2b512 (fun k m -> sp "blake2b" [| 512 |] [| m; k |]) (List.filter (fun x -> not (List.mem x [1; 32; 63; 64])) (upto 1 64)) [0; 5; 255; 256; 257] "+";
  mac_case "blake2s256" MAC.blake2s256 (fun k m -> sp "blake2s" [| 256 |] [| m; k |]) (List.filter (fun x -> not (List.mem x [1; 16; 31; 32])) (upto 1 32)) [0; 5; 128; 130] "+";
  mac_case "blake3-256" MAC.blake3_256 (fun k m -> sp "blake3" [| 256 |] [| m; k |]) [32] [0; 1; 63; 64; 65; 128; 1024; 1025; 2049] "";
  mac_case "blake3-1032" (MAC.blake3 1032) (fun k m -> sp "blake3" [| 1032 |] [| m; k |]) [32] [0; 64; 65; 1025] "";
  mac_case "siphash" MAC.siphash (fun k m -> sp "siphash" [| 8 |] [| k; m |]) [16] (upto 0 26) "";
  mac_case "siphash128" MAC.siphash128 (fun k m -> sp "siphash" [| 16 |] [| k; m |]) [16] (upto 0 26) "";
  mac_case "siphash-256B" MAC.siphash (fun k m -> sp "siphash" [| 8 |] [| k; m |]) [16] [254; 255; 256; 257; 263; 264] ""
(* CBC-MAC over an arbitrary cipher *)
let pads = [ "none", None, (fun bs s -> if String.length s mod bs <> 0 then None else Some s);
  "length", Some Padding.length, (fun bs s -> let n = bs - String.length s mod bs in Some (s ^ String.make n (Char.chr n)));
  "8000", Some Padding._8000, (fun bs s -> let n = bs - String.length s mod bs in Some (s ^ "\x80" ^ String.make (n - 1) '\000')) ]
let cbcmac e bs iv s = List.fold_left (fun h b -> e (xors h b)) iv (blocks bs s)
let feed (h : hash) m =
  let l = String.length m in
  if l > 2 then (h#add_char m.[0]; h#add_string (sub m 1 (l / 2)); h#add_substring (Bytes.of_string ("xy" ^ m)) (2 + 1 + l / 2) (l - 1 - l / 2)) else h#add_string m
let check_mac l expected (h : hash) m =
  feed h m;
  match expected, Sym.attempt (fun () -> h#result) with
  | Some e, Sym.Val r -> Sym.check_eq l e r
  | None, Sym.Exn (Error Wrong_data_length) -> Sym.check (l ^ ": length rejected") true
  | _ -> Sym.fail (l ^ ": outcome")
let () = List.iter (fun bs -> List.iter (fun (pn, pad, ps) ->
    reg (Printf.sprintf "C08.cbcmac-%d-%s" bs pn) (fun () ->
      let k = Sym.string "key" 5 and iv = Sym.string "iv" bs in
      List.iter (fun l ->
        let m = Sym.string "msg" l in
        let want iv = match ps bs m with Some s -> Some (cbcmac (uenc k) bs iv s) | None -> None in
        check_mac (Printf.sprintf "CBC-MAC of %d bytes" l) (want (String.make bs '\000')) (new Block.mac ?pad (uc bs k)) m;
        check_mac (Printf.sprintf "CBC-MAC with IV of %d bytes" l) (want iv) (new Block.mac ~iv ?pad (uc bs k)) m;
        let w3 = match want iv with Some r -> Some (uenc ~n:"G" k (udec ~n:"F" k r)) | None -> None in
        check_mac (Printf.sprintf "final triple of %d bytes" l) w3 (new Block.mac_final_triple ~iv ?pad (uc bs k) (ud ~n:"F" bs k) (uc ~n:"G" bs k)) m)
        (upto 0 (2 * bs + 1) @ [3 * bs]))) pads) [8; 16]
(* CMAC *)
let dbl l = (* doubling in GF(2^128) *)
  let n = String.length l in
  let top = Char.code l.[0] lsr 7 in
  String.init n (fun i ->
    let c = Char.code l.[i] lsl 1 in
    let c = if i + 1 < n then c lor (Char.code l.[i + 1] lsr 7) else c lxor (0x87 * top) in
    Char.unsafe_chr (c land 255))
let cmac e iv k1 k2 m =
  let l = String.length m in
  let n = if l = 0 then 0 else (l - 1) / 16 in
  let last = sub m (16 * n) (l - 16 * n) in
  let last = if String.length last = 16 then xors last k1 else xors (last ^ "\x80" ^ String.make (15 - String.length last) '\000') k2 in
  cbcmac e 16 iv (sub m 0 (16 * n) ^ last)
let aes_u k b = Sym.uf (Printf.sprintf "real:aes%d" (String.length k)) 16 [| k; b |]
let aes_e k = let c = new Block.aes_encrypt k in fun b -> let d = Bytes.create 16 in c#transform (Bytes.of_string b) 0 d 0; Bytes.to_string d
let () = List.iter (fun kl -> reg (Printf.sprintf "C08.aes-cmac-%d" kl) (fun () ->
    let k = Sym.string "key" kl in
    Sym.set "uf-aes" 1;
    let e = aes_u k in
    let l = e (String.make 16 '\000') in
    let k1 = dbl l in let k2 = dbl k1 in
    List.iter (fun n ->
      let m = Sym.string "msg" n in
      Sym.check_eq (Printf.sprintf "AES-CMAC of %d bytes" n) (cmac e (String.make 16 '\000') k1 k2 m) (hash_string (MAC.aes_cmac k) m)) [0; 1; 15; 16; 17; 31; 32; 33];
    let iv = Sym.string "iv" 16 in
    let m = Sym.string "msg" 5 in
    Sym.check_eq "AES-CMAC with IV" (cmac e iv k1 k2 m) (hash_string (MAC.aes_cmac ~iv k) m))) [16; 24; 32]
(* entry points with the real ciphers; the ciphers themselves are C02's concern *)
let blk c b = let n = String.length b in let d = Bytes.create n in (c : Block.block_cipher)#transform (Bytes.of_string b) 0 d 0; Bytes.to_string d
let des_e k = blk (new Block.des_encrypt k) and des_d k = blk (new Block.des_decrypt k) and des3_e k = blk (new Block.triple_des_encrypt k)
let () = List.iter (fun (n, bs, kls, e, mk) ->
    List.iter (fun kl -> reg (Printf.sprintf "C08.mac-%s-%d" n kl) (fun () ->
      if bs = 8 then Sym.set "maxcut" 64;
      let k = Sym.string "key" kl and iv = Sym.string "iv" bs in
      let m = Sym.string "msg" (bs + 3) in
      let p = m ^ "\x80" ^ String.make (bs - 4) '\000' in
      Sym.check_eq "CBC-MAC entry point" (e k bs (String.make bs '\000') p) (hash_string (mk ?iv:None ~pad:Padding._8000 k) m);
      Sym.check_eq "CBC-MAC entry point with IV" (e k bs iv p) (hash_string (mk ?iv:(Some iv) ~pad:Padding._8000 k) m))) kls)
  [ "aes", 16, [16; 24; 32], (fun k bs iv s -> cbcmac (aes_e k) bs iv s), (fun ?iv ~pad k -> MAC.aes ?iv ~pad k);
    "des", 8, [8], (fun k bs iv s -> cbcmac (des_e k) bs iv s), (fun ?iv ~pad k -> MAC.des ?iv ~pad k);
    "3des", 8, [16; 24], (fun k bs iv s -> cbcmac (des3_e k) bs iv s), (fun ?iv ~pad k -> MAC.triple_des ?iv ~pad k);
    "des-final-3des", 8, [16; 24], (fun k bs iv s ->
       let k1 = sub k 0 8 and k2 = sub k 8 8 in let k3 = if String.length k = 24 then sub k 16 8 else k1 in
       des_e k3 (des_d k2 (cbcmac (des_e k1) bs iv s))), (fun ?iv ~pad k -> MAC.des_final_triple_des ?iv ~pad k) ]
