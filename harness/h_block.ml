(* Block ciphers: C01 (decrypt inverts encrypt), C02 (standards), C21 (accelerated = portable) *)
open Cryptokit
let sub = Bytes.sub_string
type algo = { nm : string; bs : int; keys : int list; hws : int list;
              enc : string -> Block.block_cipher; dec : string -> Block.block_cipher;
              spec_e : string; spec_d : string }
let aes = { nm = "aes"; bs = 16; keys = [16; 24; 32]; hws = [0; 1];
            enc = (fun k -> (new Block.aes_encrypt k :> Block.block_cipher));
            dec = (fun k -> (new Block.aes_decrypt k :> Block.block_cipher)); spec_e = "aes_enc"; spec_d = "aes_dec" }
let des = { nm = "des"; bs = 8; keys = [8]; hws = [1];
            enc = (fun k -> (new Block.des_encrypt k :> Block.block_cipher));
            dec = (fun k -> (new Block.des_decrypt k :> Block.block_cipher)); spec_e = "des_enc"; spec_d = "des_dec" }
let des3 = { nm = "des3"; bs = 8; keys = [16; 24]; hws = [1];
            enc = (fun k -> (new Block.triple_des_encrypt k :> Block.block_cipher));
            dec = (fun k -> (new Block.triple_des_decrypt k :> Block.block_cipher)); spec_e = "des3_enc"; spec_d = "des3_dec" }
let bf = { nm = "blowfish"; bs = 8; keys = [4; 8; 16; 56]; hws = [1];
            enc = (fun k -> (new Block.blowfish_encrypt k :> Block.block_cipher));
            dec = (fun k -> (new Block.blowfish_decrypt k :> Block.block_cipher)); spec_e = "blowfish_enc"; spec_d = "blowfish_dec" }

let setup a hw = if a.nm = "aes" then Sym.set "hw" hw; if a.nm = "des" || a.nm = "des3" then Sym.set "maxcut" 64;
  if a.nm = "blowfish" then Sym.set "xlim" 24

(* same object over two consecutive blocks, separate buffers at odd offsets, then in place *)
let roundtrip a kl hw first second () =
  setup a hw;
  let k = Sym.string "key" kl in
  let p = Sym.string "block" a.bs in
  let c1 = first a k and c2 = second a k in
  let src = Bytes.make (a.bs + 5) '\x55' and mid = Bytes.make (a.bs + 7) '\xAA' and dst = Bytes.make (a.bs + 3) '\x33' in
  Bytes.blit_string p 0 src 3 a.bs;
  c1#transform src 3 mid 5;
  c2#transform mid 5 dst 1;
  Sym.check_eq "inverse" p (sub dst 1 a.bs);
  (* in place *)
  c1#transform src 3 src 3;
  c2#transform src 3 src 3;
  Sym.check_eq "inverse in place" p (sub src 3 a.bs)

let standard a kl hw enc () =
  setup a hw;
  let k = Sym.string "key" kl in
  let c = if enc then a.enc k else a.dec k in
  let p = Sym.string "block" a.bs in
  let src = Bytes.make (a.bs + 5) '\x55' and dst = Bytes.make (a.bs + 7) '\xAA' in
  Bytes.blit_string p 0 src 3 a.bs;
  c#transform src 3 dst 5;
  let e = Sym.spec (if enc then a.spec_e else a.spec_d) [||] [| k; p |] in
  Sym.check_eq "standard" e (sub dst 5 a.bs);
  (* a second use of the same object, in place *)
  c#transform src 3 src 3;
  Sym.check_eq "standard in place" e (sub src 3 a.bs)

(* the same through Cipher.xxx in ECB mode *)
let () =
  List.iter (fun a ->
    List.iter (fun kl ->
      List.iter (fun hw ->
        let t = Printf.sprintf "%s-%d-hw%d" a.nm kl hw in
        Sym.register ("C01." ^ t ^ ".dec-enc") (roundtrip a kl hw (fun a -> a.enc) (fun a -> a.dec));
        Sym.register ("C01." ^ t ^ ".enc-dec") (roundtrip a kl hw (fun a -> a.dec) (fun a -> a.enc));
        Sym.register ("C02." ^ t ^ ".enc") (standard a kl hw true);
        Sym.register ("C02." ^ t ^ ".dec") (standard a kl hw false)) a.hws) a.keys)
    [aes; des; des3; bf]

(* C02: parity bits of DES keys are ignored *)
let () = Sym.register "C02.des-parity" (fun () ->
  Sym.set "maxcut" 64;
  let k = Sym.string "key" 8 in
  let m = Sym.string "flip" 8 in
  let k2 = String.init 8 (fun i -> Char.unsafe_chr (Char.code k.[i] lxor (Char.code m.[i] land 1))) in
  let p = Sym.bytes "block" 8 in
  let o1 = Bytes.create 8 and o2 = Bytes.create 8 in
  (new Block.des_encrypt k)#transform p 0 o1 0;
  (new Block.des_encrypt k2)#transform p 0 o2 0;
  Sym.check_eqb "parity ignored" o1 o2)
(* C02: the Cipher entry points select the right algorithm and direction *)
let () =
  List.iter (fun (n, kl, bs, f, se, sd) ->
    Sym.register ("C02.cipher-" ^ n) (fun () ->
      if bs = 8 then Sym.set "maxcut" 64;
      let k = Sym.string "key" kl and p = Sym.string "block" bs in
      Sym.check_eq "encrypt entry point" (Sym.spec se [||] [| k; p |])
        (transform_string (f k Cipher.Encrypt) p);
      Sym.check_eq "decrypt entry point" (Sym.spec sd [||] [| k; p |])
        (transform_string (f k Cipher.Decrypt) p)))
  [ "aes", 16, 16, (fun k d -> Cipher.aes ~mode:Cipher.ECB k d), "aes_enc", "aes_dec";
    "des", 8, 8, (fun k d -> Cipher.des ~mode:Cipher.ECB k d), "des_enc", "des_dec";
    "des3-16", 16, 8, (fun k d -> Cipher.triple_des ~mode:Cipher.ECB k d), "des3_enc", "des3_dec";
    "des3-24", 24, 8, (fun k d -> Cipher.triple_des ~mode:Cipher.ECB k d), "des3_enc", "des3_dec";
    "blowfish", 16, 8, (fun k d -> Cipher.blowfish ~mode:Cipher.ECB k d), "blowfish_enc", "blowfish_dec" ]

(* C21: accelerated against portable *)
let () =
  List.iter (fun kl ->
    List.iter (fun (d, mk) ->
      Sym.register (Printf.sprintf "C21.aes-%d-%s" kl d) (fun () ->
        let k = Sym.string "key" kl in
        let p = Sym.bytes "block" 16 in
        let o1 = Bytes.create 16 and o2 = Bytes.create 16 in
        Sym.set "hw" 1;
        (mk k : Block.block_cipher)#transform p 0 o1 0;
        Sym.set "hw" 0;
        (mk k)#transform p 0 o2 0;
        Sym.check_eqb "accelerated = portable" o1 o2))
      ["enc", aes.enc; "dec", aes.dec]) [16; 24; 32]
