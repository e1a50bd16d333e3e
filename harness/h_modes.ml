(* C03: chaining modes over an arbitrary block cipher.  C04: padding. *)
open Cryptokit
open Hutil
(* ---- textbook definitions on strings, E/D given ---- *)
let cbc_e e iv ps = List.rev (snd (List.fold_left (fun (c, l) p -> let x = e (xors p c) in (x, x :: l)) (iv, []) ps))
let cbc_d d iv cs = List.rev (snd (List.fold_left (fun (c0, l) c -> (c, xors (d c) c0 :: l)) (iv, []) cs))
let cfb n bs e iv enc xs =
  let r, _ = List.fold_left (fun (l, reg) x ->
    let o = xors x (sub (e reg) 0 n) in
    let c = if enc then o else x in
    (o :: l, sub (reg ^ c) n bs)) ([], iv) xs in
  List.rev r
let ofb n e iv xs =
  let r, _ = List.fold_left (fun (l, reg) x -> let o = e reg in (xors x (sub o 0 n) :: l, o)) ([], iv) xs in
  List.rev r
let ctr n bs e iv xs =
  List.mapi (fun i x -> xors x (e (sub iv 0 (bs - n) ^ Sym.spec "be_add" [| i |] [| sub iv (bs - n) n |]))) xs

let run bc data = transform_string (new Block.cipher bc :> transform) data

let nb = 3
let modes = [
  "ecb", (fun bs -> [0]), (fun bs n iv enc k ->
     let d = Sym.string "data" (nb * bs) in
     let o = run (if enc then uc bs k else ud bs k) d in
     Sym.check_eq "ecb" (cat (List.map (if enc then uenc k else udec k) (blocks bs d))) o);
  "cbc", (fun bs -> [0]), (fun bs n iv enc k ->
     let d = Sym.string "data" (nb * bs) in
     if enc then Sym.check_eq "cbc encrypt" (cat (cbc_e (uenc k) iv (blocks bs d))) (run (new Block.cbc_encrypt ~iv (uc bs k)) d)
     else Sym.check_eq "cbc decrypt" (cat (cbc_d (udec k) iv (blocks bs d))) (run (new Block.cbc_decrypt ~iv (ud bs k)) d));
  "cfb", (fun bs -> if bs = 8 then [1;2;3;4;5;6;7;8] else [1;5;8;13;15;16]), (fun bs n iv enc k ->
     let m = bs / n + 2 in
     let d = Sym.string "data" (m * n) in
     let bc = if enc then (new Block.cfb_encrypt ~iv n (uc bs k) :> Block.block_cipher) else (new Block.cfb_decrypt ~iv n (uc bs k) :> Block.block_cipher) in
     Sym.check_eq "cfb" (cat (cfb n bs (uenc k) iv enc (blocks n d))) (run bc d));
  "ofb", (fun bs -> if bs = 8 then [1;2;3;4;5;6;7;8] else [1;5;8;13;15;16]), (fun bs n iv enc k ->
     let d = Sym.string "data" (4 * n) in
     Sym.check_eq "ofb" (cat (ofb n (uenc k) iv (blocks n d))) (run (new Block.ofb ~iv n (uc bs k)) d));
  "ctr", (fun bs -> if bs = 8 then [1;2;3;4;5;6;7;8] else [1;2;4;7;8;9;12;15;16]), (fun bs n iv enc k ->
     let d = Sym.string "data" (nb * bs) in
     let c = if n = bs && enc then new Block.ctr ~iv (uc bs k) else new Block.ctr ~iv ~inc:n (uc bs k) in
     Sym.check_eq "ctr" (cat (ctr n bs (uenc k) iv (blocks bs d))) (run c d)) ]
let () = List.iter (fun (nm, ns, f) ->
  List.iter (fun bs ->
    List.iter (fun n ->
      List.iter (fun enc ->
        Sym.register (Printf.sprintf "C03.%s-bs%d-n%d-%s" nm bs n (if enc then "enc" else "dec")) (fun () ->
          let k = Sym.string "key" 4 in
          let iv = Sym.string "iv" bs in
          let iv0 = String.sub iv 0 bs in
          f bs n iv enc k;
          Sym.check_eq "iv argument unchanged" iv0 iv)) [true; false]) (ns bs)) [8; 16]) modes

(* decrypting in the same mode gives back the data *)
let () = List.iter (fun (nm, mk) ->
  Sym.register ("C03.inverse-" ^ nm) (fun () ->
    let bs = 8 in
    let k = Sym.string "key" 4 and iv = Sym.string "iv" bs in
    let (e : Block.block_cipher), (d : Block.block_cipher) = mk bs k iv in
    let data = Sym.string "data" (3 * e#blocksize) in
    Sym.check "block sizes agree" (e#blocksize = d#blocksize);
    Sym.check_eq "inverse" data (run d (run e data))))
  [ "ecb", (fun bs k iv -> uc bs k, ud bs k);
    "cbc", (fun bs k iv -> (new Block.cbc_encrypt ~iv (uc bs k) :> Block.block_cipher), (new Block.cbc_decrypt ~iv (ud bs k) :> Block.block_cipher));
    "cfb3", (fun bs k iv -> (new Block.cfb_encrypt ~iv 3 (uc bs k) :> Block.block_cipher), (new Block.cfb_decrypt ~iv 3 (uc bs k) :> Block.block_cipher));
    "cfb8", (fun bs k iv -> (new Block.cfb_encrypt ~iv 8 (uc bs k) :> Block.block_cipher), (new Block.cfb_decrypt ~iv 8 (uc bs k) :> Block.block_cipher));
    "ofb5", (fun bs k iv -> (new Block.ofb ~iv 5 (uc bs k) :> Block.block_cipher), (new Block.ofb ~iv 5 (uc bs k) :> Block.block_cipher));
    "ctr", (fun bs k iv -> (new Block.ctr ~iv (uc bs k) :> Block.block_cipher), (new Block.ctr ~iv (uc bs k) :> Block.block_cipher));
    "ctr2", (fun bs k iv -> (new Block.ctr ~iv ~inc:2 (uc bs k) :> Block.block_cipher), (new Block.ctr ~iv ~inc:2 (uc bs k) :> Block.block_cipher)) ]

(* in-place use and odd offsets of the chained block ciphers *)
let () = List.iter (fun (nm, mk, spec) ->
  Sym.register ("C03.inplace-" ^ nm) (fun () ->
    let bs = 8 in
    let k = Sym.string "key" 4 and iv = Sym.string "iv" bs in
    let (c : Block.block_cipher) = mk bs k iv in
    let n = c#blocksize in
    let d = Sym.string "data" (3 * n) in
    let e = spec bs k iv (blocks n d) in
    let b = Bytes.make (n + 9) '\x77' in
    List.iteri (fun i (x, y) ->
      Bytes.blit_string x 0 b 5 n;
      c#transform b 5 b 5;
      Sym.check_eq "in place" y (bsub b 5 n);
      Sym.check_eq "surroundings untouched" (String.make 5 '\x77' ^ String.make 4 '\x77') (bsub b 0 5 ^ bsub b (5 + n) 4))
      (List.combine (blocks n d) e)))
  [ "cbc-enc", (fun bs k iv -> (new Block.cbc_encrypt ~iv (uc bs k) :> Block.block_cipher)), (fun bs k iv l -> cbc_e (uenc k) iv l);
    "cbc-dec", (fun bs k iv -> (new Block.cbc_decrypt ~iv (ud bs k) :> Block.block_cipher)), (fun bs k iv l -> cbc_d (udec k) iv l);
    "cfb-enc", (fun bs k iv -> (new Block.cfb_encrypt ~iv 3 (uc bs k) :> Block.block_cipher)), (fun bs k iv l -> cfb 3 bs (uenc k) iv true l);
    "cfb-dec", (fun bs k iv -> (new Block.cfb_decrypt ~iv 3 (uc bs k) :> Block.block_cipher)), (fun bs k iv l -> cfb 3 bs (uenc k) iv false l);
    "ofb", (fun bs k iv -> (new Block.ofb ~iv 5 (uc bs k) :> Block.block_cipher)), (fun bs k iv l -> ofb 5 (uenc k) iv l);
    "ctr", (fun bs k iv -> (new Block.ctr ~iv (uc bs k) :> Block.block_cipher)), (fun bs k iv l -> ctr bs bs (uenc k) iv l) ]

(* a counter of n < 8 bytes: at least 2^8n - 1 blocks are accepted, no more than 2^8n ever are *)
let exhaust n last () =
  let bs = 8 in
  let seen = Hashtbl.create 300 in
  let cnt = ref 0 in
  let fake : Block.block_cipher = object
    method blocksize = bs
    method transform src so dst d =
      incr cnt;
      let c = bsub src so bs in
      if Sym.native () || true then begin
        let key = sub c (bs - n) n in
        Hashtbl.replace seen key (1 + try Hashtbl.find seen key with Not_found -> 0)
      end;
      Bytes.blit src so dst d bs
    method wipe = () end in
  let iv = Sym.string "iv" (bs - n) ^ String.make (n - 1) '\xfe' ^ String.make 1 (Char.chr last) in
  let c = new Block.ctr ~iv ~inc:n fake in
  let b = Bytes.make bs '\000' in
  let lim = 1 lsl (8 * n) in
  let ok = ref 0 and stopped = ref false in
  while not !stopped && !ok < lim + 2 do
    (match c#transform b 0 b 0 with () -> incr ok | exception Error Message_too_long -> stopped := true)
  done;
  Sym.check "counter exhaustion is reported" (!stopped);
  Sym.check "not before the counter space is used" (!ok >= lim - 1);
  Sym.check "no key stream block is used twice" (!ok <= lim);
  (* still refused afterwards *)
  Sym.check "stays refused" (match c#transform b 0 b 0 with () -> false | exception Error Message_too_long -> true)
let () =
  List.iter (fun last -> Sym.register (Printf.sprintf "C03.ctr-exhaust-1-from%d" last) (exhaust 1 last)) [0; 1; 254; 255];
  Sym.register "+C03.ctr-exhaust-2" (exhaust 2 7)
(* a counter of 8 bytes or more has no such limit: no refusal within a few hundred blocks *)
let () = Sym.register "C03.ctr-wide-no-limit" (fun () ->
  List.iter (fun n ->
    let fake : Block.block_cipher = object method blocksize = 16
      method transform src so dst d = Bytes.blit src so dst d 16 method wipe = () end in
    let c = new Block.ctr ~inc:n fake in
    let b = Bytes.make 16 '\000' in
    for i = 1 to 300 do c#transform b 0 b 0 done) [2; 8; 9; 16];
  Sym.check "accepted" true)

(* mode selection, direction and default IV through the Cipher entry points *)
let spec1 n k b = Sym.spec n [||] [| k; b |]
let () = List.iter (fun (nm, kl, bs, (f : ?mode:Cipher.chaining_mode -> ?pad:Padding.scheme -> ?iv:string -> string -> Cipher.direction -> transform), se, sd, quick) ->
  List.iter (fun (mn, mode, ref_e, ref_d) ->
    List.iter (fun (ivn, ivf) ->
      List.iter (fun dir ->
        Sym.register (Printf.sprintf "%sC03.entry-%s-%s-%s-%s" (if quick then "" else "+") nm mn ivn (if dir = Cipher.Encrypt then "enc" else "dec")) (fun () ->
          if bs = 8 then (if nm = "blowfish" then Sym.set "xlim" 24 else Sym.set "maxcut" 64);
          let k = Sym.string "key" kl in
          let n = match mode with Some (Cipher.CFB n) | Some (Cipher.OFB n) -> n | _ -> bs in
          let iv = ivf bs in
          let iv' = match iv with None -> String.make bs '\000' | Some s -> s in
          let d = Sym.string "data" (2 * n) in
          let e = spec1 se k and de = spec1 sd k in
          let r = (if dir = Cipher.Encrypt then ref_e e bs else ref_d (e, de) bs) iv' (blocks n d) in
          Sym.check_eq "entry point" (cat r) (transform_string (f ?mode ?iv k dir) d))) [Cipher.Encrypt; Cipher.Decrypt])
      (if mn = "ecb" then ["noiv", fun _ -> None] else ["iv", (fun bs -> Some (if sub mn 0 2 = "ct" then Sym.string "iv" (bs - 5) ^ "\x41\x05\xff\xff\xff" else Sym.string "iv" bs)); "noiv", (fun _ -> None)]))
    [ "default", None, (fun e bs iv l -> cbc_e e iv l), (fun (e, d) bs iv l -> cbc_d d iv l);
      "ecb", Some Cipher.ECB, (fun e bs iv l -> List.map e l), (fun (e, d) bs iv l -> List.map d l);
      "cbc", Some Cipher.CBC, (fun e bs iv l -> cbc_e e iv l), (fun (e, d) bs iv l -> cbc_d d iv l);
      "cfb2", Some (Cipher.CFB 2), (fun e bs iv l -> cfb 2 bs e iv true l), (fun (e, d) bs iv l -> cfb 2 bs e iv false l);
      "ofb3", Some (Cipher.OFB 3), (fun e bs iv l -> ofb 3 e iv l), (fun (e, d) bs iv l -> ofb 3 e iv l);
      "ctr", Some Cipher.CTR, (fun e bs iv l -> ctr bs bs e iv l), (fun (e, d) bs iv l -> ctr bs bs e iv l);
      "ctr4", Some (Cipher.CTR_N 4), (fun e bs iv l -> ctr 4 bs e iv l), (fun (e, d) bs iv l -> ctr 4 bs e iv l) ])
  [ "aes", 16, 16, Cipher.aes, "aes_enc", "aes_dec", true;
    "des", 8, 8, Cipher.des, "des_enc", "des_dec", true;
    "des3", 24, 8, Cipher.triple_des, "des3_enc", "des3_dec", true;
    "blowfish", 8, 8, Cipher.blowfish, "blowfish_enc", "blowfish_dec", false ]

(* ------------------------------------------------------------------ C04 *)
let schemes = ["length", Padding.length; "8000", Padding._8000]
let padded nm bs l d =
  let n = bs - l mod bs in
  d ^ (if nm = "length" then String.make n (Char.chr n) else "\x80" ^ String.make (n - 1) '\000')
let () = List.iter (fun (nm, (p : Padding.scheme)) ->
  List.iter (fun bs ->
    for l = 0 to 2 * bs + 1 do
      (* encryption: exact padding, whole number of blocks; decryption strips exactly it *)
      Sym.register (Printf.sprintf "C04.%s-bs%d-len%d" nm bs l) (fun () ->
        let k = Sym.string "key" 4 in
        let d = Sym.string "data" l in
        let c = transform_string (new Block.cipher_padded_encrypt p (uc bs k) :> transform) d in
        let q = padded nm bs l d in
        Sym.check_eq "padded encryption" (cat (List.map (uenc k) (blocks bs q))) c;
        let t = new Block.cipher_padded_decrypt p (ud bs k) in
        Sym.check_eq "round trip" d (transform_string (t :> transform) c));
      (* decryption of arbitrary input of l bytes *)
      Sym.register (Printf.sprintf "C04.%s-bs%d-dec%d" nm bs l) (fun () ->
        let k = Sym.string "key" 4 in
        let c = Sym.string "cipher" l in
        let r = Sym.attempt (fun () -> transform_string (new Block.cipher_padded_decrypt p (ud bs k) :> transform) c) in
        if l = 0 || l mod bs <> 0 then
          Sym.check "length refused" (match r with Sym.Exn (Error Wrong_data_length) -> true | _ -> false)
        else begin
          let pl = cat (List.map (udec k) (blocks bs c)) in
          (* position of the data end according to the definition, -1 when malformed *)
          let e = Sym.spec ("unpad_" ^ nm) [| bs |] [| pl |] in
          match r with
          | Sym.Val o ->
              Sym.check "accepted only when well formed" (e.[0] = '\001');
              Sym.check "stripped length" (Char.code e.[1] = String.length o - (l - bs));
              Sym.check_eq "data" (sub pl 0 (String.length o)) o
          | Sym.Exn (Error Bad_padding) -> Sym.check "refused only when malformed" (e.[0] = '\000')
          | Sym.Exn _ -> Sym.fail "other exception"
        end)
    done) [4; 8; 16];
  (* through the scheme objects themselves *)
  List.iter (fun bs ->
    for used = 0 to bs - 1 do
      Sym.register (Printf.sprintf "C04.%s-pad-bs%d-used%d" nm bs used) (fun () ->
        let b = Sym.bytes "buf" bs in
        let d = bsub b 0 used in
        p#pad b used;
        Sym.check_eq "padding bytes" (padded nm bs used d) (Bytes.to_string b);
        Sym.check "strip" (p#strip b = used))
    done) [8; 16]) schemes
(* a large block size: padding lengths up to 255 *)
let () = List.iter (fun (nm, (p : Padding.scheme)) ->
  Sym.register (Printf.sprintf "C04.%s-pad-bs255" nm) (fun () ->
    List.iter (fun used ->
      let b = Bytes.make 255 '\xAB' in
      p#pad b used;
      Sym.check_eq "padding bytes" (padded nm 255 used (String.make used '\xAB')) (Bytes.to_string b);
      Sym.check "strip" (p#strip b = used)) [0; 1; 100; 127; 128; 253; 254])) schemes
(* combined with a chaining mode, through an entry point, fed in arbitrary pieces *)
let () = List.iter (fun (nm, p) ->
  List.iter (fun l ->
    Sym.register (Printf.sprintf "C04.%s-entry-len%d" nm l) (fun () ->
      let k = Sym.string "key" 16 and iv = Sym.string "iv" 16 in
      let d = Sym.string "data" l in
      let c = transform_string (Cipher.aes ~pad:p ~iv k Cipher.Encrypt) d in
      Sym.check_eq "cbc of the padded data" (cat (cbc_e (spec1 "aes_enc" k) iv (blocks 16 (padded nm 16 l d)))) c;
      Sym.check_eq "round trip" d (transform_string (Cipher.aes ~pad:p ~iv k Cipher.Decrypt) c))) [0; 5; 15; 16; 17; 32]) schemes
