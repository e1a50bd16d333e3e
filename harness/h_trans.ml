(* C11: output of transforms.  C12: Base64 and hexadecimal.  C14: parameters and sizes.
   C23: channels.  C24: inputs intact, instances independent. *)
open Cryptokit
open Hutil
let reg = Sym.register
let aedir d = if d = Cipher.Encrypt then AEAD.Encrypt else AEAD.Decrypt
let aes_gcm ?header ~iv k d = AEAD.aes_gcm ?header ~iv k (aedir d)
let chapoly ?header ~iv k d = AEAD.chacha20_poly1305 ?header ~iv k (aedir d)
let det n = String.init n (fun i -> Char.chr ((i * 91 + 5) land 255))

(* ---------------------------------------------------------------- C11 *)
(* the transforms; [spec] is what must come out for an input, [flushable] whether flush is allowed at any time *)
let bcat f n s = cat (List.map f (blocks n s))
let hexd = "0123456789abcdef"
let tks = [|"A"; "B"|]
type kind = { nm : string; mk : unit -> transform; spec : string -> string; unit_ : int; fl : bool }
let ks name i c = Char.unsafe_chr (Char.code c lxor Char.code (Sym.uf ("ks:" ^ name) 1 [| string_of_int i |]).[0])
let shex s = Sym.spec "hexenc" [||] [| s |]
let sb64 pad s = Sym.spec "b64enc" [| pad |] [| s |]
(* cheap stand-in ciphers: output depends on position and data *)
class addblk bs : Block.block_cipher = object
  val mutable n = 0
  method blocksize = bs
  method transform s o d p =
    if o < 0 || o > Bytes.length s - bs || p < 0 || p > Bytes.length d - bs then invalid_arg "addblk";
    let x = bsub s o bs in
    for i = 0 to bs - 1 do Bytes.set d (p + i) (Char.unsafe_chr ((Char.code x.[bs - 1 - i] + n * 7 + i + 1) land 255)) done; n <- n + 1
  method wipe = ()
end
let addblk_spec bs s = String.init (String.length s) (fun k -> let b = k / bs and i = k mod bs in Char.unsafe_chr ((Char.code s.[b * bs + bs - 1 - i] + b * 7 + i + 1) land 255))
class addstr : Stream.stream_cipher = object
  val mutable n = 0
  method transform s o d p len =
    if len < 0 || o < 0 || o > Bytes.length s - len || p < 0 || p > Bytes.length d - len then invalid_arg "addstr";
    for i = 0 to len - 1 do Bytes.set d (p + i) (Char.unsafe_chr ((Char.code (Bytes.get s (o + i)) + n * 3 + 1) land 255)); n <- n + 1 done
  method wipe = ()
end
let addstr_spec s = String.mapi (fun i c -> Char.unsafe_chr ((Char.code c + i * 3 + 1) land 255)) s
let pad_spec bs s = let k = bs - String.length s mod bs in s ^ String.make k (Char.chr k)
let kinds =
  [ { nm = "block8"; mk = (fun () -> new Block.cipher (new addblk 8)); spec = addblk_spec 8; unit_ = 8; fl = false };
    { nm = "block5"; mk = (fun () -> new Block.cipher (new addblk 5)); spec = addblk_spec 5; unit_ = 5; fl = false };
    { nm = "block200"; mk = (fun () -> new Block.cipher (new addblk 200)); spec = addblk_spec 200; unit_ = 200; fl = false };
    { nm = "block1"; mk = (fun () -> new Block.cipher (new addblk 1)); spec = addblk_spec 1; unit_ = 1; fl = true };
    { nm = "padded8"; mk = (fun () -> new Block.cipher_padded_encrypt Padding.length (new addblk 8)); spec = (fun s -> addblk_spec 8 (pad_spec 8 s)); unit_ = 1; fl = false };
    { nm = "stream"; mk = (fun () -> new Stream.cipher (new addstr)); spec = addstr_spec; unit_ = 1; fl = true };
    { nm = "hex"; mk = Hexa.encode; spec = shex; unit_ = 1; fl = true };
    { nm = "base64"; mk = Base64.encode_compact_pad; spec = sb64 1; unit_ = 1; fl = false };
    { nm = "compose"; mk = (fun () -> compose (new Stream.cipher (new addstr)) (new Block.cipher_padded_encrypt Padding.length (new addblk 8))); spec = (fun s -> addblk_spec 8 (pad_spec 8 (addstr_spec s))); unit_ = 1; fl = false };
    { nm = "compose-block"; mk = (fun () -> compose (new Block.cipher (new addblk 8)) (new Stream.cipher (new addstr))); spec = (fun s -> addstr_spec (addblk_spec 8 s)); unit_ = 8; fl = false };
    { nm = "compose-twice"; mk = (fun () -> compose (compose (new Stream.cipher (new addstr)) (Hexa.encode ())) (new Stream.cipher (new addstr))); spec = (fun s -> addstr_spec (shex (addstr_spec s))); unit_ = 1; fl = true } ]

(* a run: puts data piece by piece, gets output in between *)
class run (k : kind) total = object (self)
  val t = k.mk ()
  val data = Sym.string "data" total
  val out = Buffer.create 64
  val mutable pos = 0
  method left = total - pos
  method put how n =
    let n = min n (total - pos) in
    let s = sub data pos n in
    pos <- pos + n;
    match how with
    | 0 -> t#put_string s
    | 1 -> t#put_substring (Bytes.of_string ("xyz" ^ s ^ "uv")) 3 n
    | 2 -> String.iter t#put_char s
    | _ -> String.iter (fun c -> t#put_byte (Char.code c)) s
  method get how n =
    let a = t#available_output in
    Sym.check "available_output is not negative" (a >= 0);
    match how with
    | 0 -> let s = t#get_string in Sym.check "get_string: all that is available" (String.length s = a); Buffer.add_string out s; self#empty
    | 1 -> let (b, o, l) = t#get_substring in Sym.check "get_substring: all that is available" (l = a && o >= 0 && o + l <= Bytes.length b); Buffer.add_string out (bsub b o l); self#empty
    | _ -> for i = 1 to n do
        if t#available_output > 0 then begin
          let a = t#available_output in
          (if how = 2 then Buffer.add_char out t#get_char else Buffer.add_char out (Char.chr t#get_byte));
          Sym.check "one less available" (t#available_output = a - 1) end
        else self#empty done
  method empty =
    Sym.check "nothing left" (t#available_output = 0);
    (match t#get_char with _ -> Sym.fail "get_char without output" | exception e -> Sym.check "End_of_file" (e = End_of_file));
    (match t#get_byte with _ -> Sym.fail "get_byte without output" | exception e -> Sym.check "End_of_file" (e = End_of_file));
    Sym.check_eq "get_string without output" "" t#get_string;
    let (_, _, l) = t#get_substring in Sym.check "get_substring without output" (l = 0)
  method flush = if k.fl || (k.unit_ > 1 && pos mod k.unit_ = 0 && k.nm <> "base64") then t#flush
  method finish =
    let n = pos - pos mod k.unit_ in
    if n < pos then (match t#finish with () -> Sym.fail "incomplete block accepted" | exception e -> Sym.check "Wrong_data_length" (e = Error Wrong_data_length); raise Exit);
    t#finish; self#get 0 0;
    Sym.check_eq "output" (k.spec (sub data 0 pos)) (Buffer.contents out)
end
let () = List.iter (fun k ->
  (* small pieces, every kind of put and get *)
  List.iter (fun h0 -> List.iter (fun full ->
    reg (Printf.sprintf "%sC11.small-%s-%d" (if full then "+" else "") k.nm h0) (fun () ->
      let r = new run k 24 in
      let sizes = [|0; 1; k.unit_; k.unit_ + 2|] in
      try
        r#put h0 sizes.(Sym.choose "n0" (if full then 0 else 1) 3);
        r#get (if full then Sym.choose "get0" 0 3 else (h0 + 1) land 3) 2;
        if h0 = 1 then r#flush;
        r#put (if full then Sym.choose "put1" 0 3 else (h0 + 2) land 3) sizes.(Sym.choose "n1" 0 3);
        if h0 = 2 then r#get 2 1;
        r#put ((h0 + 1) land 3) (if r#left mod k.unit_ = 0 then 1 else r#left mod k.unit_);
        if h0 = 3 then r#flush;
        r#finish
      with Exit -> ())) [false; true]) (if k.unit_ > 100 then [] else [0; 1; 2; 3]);
  (* more output than the buffer: compaction and growth with output pending *)
  if k.nm <> "block5" then
  List.iter (fun n0 -> List.iter (fun full ->
    reg (Printf.sprintf "%sC11.large-%s-%d" (if full then "+" else "") k.nm n0) (fun () ->
      let r = new run k 1000 in
      let g = [|0; 1; 130; 256|] and p = [|1; 128; 250; 257|] in
      let get c = let n = g.(c) in if n > 0 then r#get 2 n in
      try
        r#put 0 n0; get (if full then Sym.choose "g0" 0 3 else 2);
        r#put 1 p.(Sym.choose "n1" (if full then 0 else 1) 3); get (Sym.choose "g1" 0 (if full then 3 else 2));
        r#put (if k.unit_ = 1 then 2 else 0) p.(if full then Sym.choose "n2" 0 1 else 1);
        r#put 0 (r#left mod k.unit_);
        r#finish
      with Exit -> ())) [false; true]) [100; 256; 400]) kinds
(* authenticated transforms: the same for their output; the tag is that of all the data *)
let () =
  let auth nm mk spec =
    reg ("C11.auth-" ^ nm) (fun () ->
      let data = Sym.string "data" 300 in
      let (t : authenticated_transform) = mk () in
      let out = Buffer.create 300 in
      let a = [|1; 100; 130|].(Sym.choose "first" 0 2) and b = [|0; 1; 140|].(Sym.choose "second" 0 2) in
      t#put_string (sub data 0 a);
      for _ = 1 to [|0; 1; 60|].(Sym.choose "get" 0 2) do if t#available_output > 0 then Buffer.add_char out t#get_char done;
      t#put_substring (Bytes.of_string ("ab" ^ data)) (2 + a) b;
      t#put_char data.[a + b];
      if Sym.choose "substring" 0 1 = 0 then Buffer.add_string out t#get_string
      else (let (x, o, l) = t#get_substring in Buffer.add_string out (bsub x o l));
      t#put_byte (Char.code data.[a + b + 1]);
      let tag = t#finish_and_get_tag in
      Buffer.add_string out t#get_string;
      Sym.check "nothing left" (t#available_output = 0);
      let o, g = spec (sub data 0 (a + b + 2)) in
      Sym.check_eq "output" o (Buffer.contents out);
      Sym.check_eq "tag" g tag) in
  let h s = uhash_spec "H" s in
  auth "then" (fun () -> transform_then_hash (new Stream.cipher (new addstr)) (new uhash "H")) (fun s -> let c = addstr_spec s in c, h c);
  auth "and" (fun () -> transform_and_hash (new Stream.cipher (new addstr)) (new uhash "H")) (fun s -> addstr_spec s, h s);
  auth "then-pad" (fun () -> transform_then_hash (new Block.cipher_padded_encrypt Padding.length (new addblk 8)) (new uhash "H")) (fun s -> let c = addblk_spec 8 (pad_spec 8 s) in c, h c);
  auth "and-pad" (fun () -> transform_and_hash (new Block.cipher_padded_encrypt Padding.length (new addblk 8)) (new uhash "H")) (fun s -> addblk_spec 8 (pad_spec 8 s), h s)

(* ---------------------------------------------------------------- C12 *)
let all (tr : transform) pieces = List.iteri (fun i p -> match i land 3 with
    | 0 -> tr#put_string p | 1 -> tr#put_substring (Bytes.of_string ("?" ^ p ^ "!!")) 1 (String.length p)
    | 2 -> String.iter tr#put_char p | _ -> String.iter (fun c -> tr#put_byte (Char.code c)) p) pieces; tr#finish; tr#get_string
let cut s k = let n = String.length s in let a = min k n in let b = min n (a + 1) in [sub s 0 a; sub s a (b - a); sub s b (n - b)]
let unline l s =
  (* lines of at most 76 characters *)
  let ls = String.split_on_char '\n' s in
  List.iter (fun x -> Sym.check (l ^ ": line length") (String.length x <= 76)) ls; cat ls
let () =
  List.iter (fun n ->
    reg (Printf.sprintf "C12.encode-%d" n) (fun () ->
      let d = Sym.string "data" n in
      let k = Sym.choose "cut" 0 (min n 4) in
      let p = cut d k in
      Sym.check_eq "hex" (shex d) (all (Hexa.encode ()) p);
      Sym.check_eq "compact" (sb64 0 d) (all (Base64.encode_compact ()) p);
      Sym.check_eq "padded" (sb64 1 d) (all (Base64.encode_compact_pad ()) p);
      let m = all (Base64.encode_multiline ()) p in
      (* positions of newlines do not depend on the data *)
      Sym.check_eq "lines" (sb64 1 d) (unline "multiline" m))) (List.init 13 (fun i -> i) @ [53; 54; 55; 56; 107; 108; 109; 170]);
  List.iter (fun (nm, enc, dec) -> List.iter (fun n ->
    let big = n > (if nm = "hex" then 2 else 1) in
    reg (Printf.sprintf "%sC12.roundtrip-%s-%d" (if big then "+" else "") nm n) (fun () ->
      let d = Sym.string "data" n in
      let e = transform_string (enc ()) d in
      Sym.check_eq "data" d (all (dec ()) (cut e 2)))) [0; 1; 2; 3];
    (* long data with any two bytes in the middle *)
    List.iter (fun n -> reg (Printf.sprintf "C12.roundtrip-%s-long%d" nm n) (fun () ->
      let d = det n ^ Sym.string "data" 1 ^ det 7 in
      Sym.check_eq "data" d (all (dec ()) (cut (transform_string (enc ()) d) 60)))) [50; 51; 52; 130; 197])
    ["hex", Hexa.encode, Hexa.decode; "base64", Base64.encode_compact, Base64.decode; "padded", Base64.encode_compact_pad, Base64.decode; "multiline", Base64.encode_multiline, Base64.decode];
  (* the decoders on the 64 digits, through the encoders: every group of a given shape *)
  let dec_text l name dec spec n pre post = reg (Printf.sprintf "%sC12.%s-%s-%d" (if n > 2 then "+" else "") l name n) (fun () ->
    let t = Sym.string "text" n in
    let text = pre ^ t ^ post in
    let want = spec text in
    let got = Sym.attempt (fun () -> all (dec ()) (cut text (String.length pre + 1))) in
    match want, got with
    | Some w, Sym.Val g -> Sym.check_eq "decoded" w g
    | None, Sym.Exn e -> Sym.check "Bad_encoding" (e = Error Bad_encoding)
    | Some _, _ -> Sym.fail "valid text refused"
    | None, _ -> Sym.fail "bad text accepted") in
  let cls name c = Char.code (Sym.spec name [||] [| String.make 1 c |]).[0] in
  let c1 x = String.make 1 (Char.unsafe_chr (x land 255)) in
  let hexspec s =
    let rec go i hi acc =
      if i = String.length s then (match hi with None -> Some acc | _ -> None)
      else let v = cls "hexclass" s.[i] in
        if v < 16 then (match hi with None -> go (i + 1) (Some v) acc | Some h -> go (i + 1) None (acc ^ c1 (h * 16 + v)))
        else if v = 64 then go (i + 1) hi acc else None in
    go 0 None "" in
  let b64spec s =
    let rec go i ds fin =
      if i = String.length s then Some (List.rev ds)
      else let v = cls "b64class" s.[i] in
        if v < 64 then (if fin then None else go (i + 1) (v :: ds) fin)
        else if v = 64 then go (i + 1) ds fin else if v = 65 then go (i + 1) ds true else None in
    match go 0 [] false with
    | None -> None
    | Some ds ->
        let rec grp = function
          | a :: b :: x :: d :: r -> (match grp r with None -> None | Some t -> Some (c1 (a lsl 2 lor (b lsr 4)) ^ c1 (b lsl 4 lor (x lsr 2)) ^ c1 (x lsl 6 lor d) ^ t))
          | [] -> Some "" | [_] -> None
          | [a; b] -> Some (c1 (a lsl 2 lor (b lsr 4))) | a :: b :: x :: _ -> Some (c1 (a lsl 2 lor (b lsr 4)) ^ c1 (b lsl 4 lor (x lsr 2))) in
        grp ds in
  List.iter (fun n -> dec_text "hex" "any" Hexa.decode hexspec n "" ""; dec_text "b64" "any" Base64.decode b64spec n "" "") [0; 1; 2; 3];
  dec_text "hex" "any" Hexa.decode hexspec 4 "" "";
  List.iteri (fun i (a, b) -> dec_text "hex" (Printf.sprintf "in%d" i) Hexa.decode hexspec 2 a b) ["4", "1"; "41", "42"; " 4\n", "\t1 "; "a", "Bcd"];
  List.iteri (fun i (a, b) -> dec_text "b64" (Printf.sprintf "in%d" i) Base64.decode b64spec 2 a b)
    ["Q", "B"; "QU", ""; "QUI", ""; "QUJD", "QUI="; "Q", "I="; "QUI", "=\n"; "QU", "=="; " Q ", " I\n= "; "QUI=", ""; "QQ=", "="; "", "QUJ"; "+/", "\r\nab=="]

(* ---------------------------------------------------------------- C14 *)
let accepts l ok err f = match Sym.attempt f with
  | Sym.Val _ -> Sym.check (l ^ ": accepted only if documented") ok
  | Sym.Exn e -> Sym.check (l ^ ": documented error, and only if needed") (not ok && e = Error err)
let () =
  let keys nm max ok f = reg ("C14.key-" ^ nm) (fun () ->
    let n = Sym.choose "length" 0 max in
    accepts "key" (ok n) Wrong_key_size (fun () -> ignore (f (det n)))) in
  let is l n = List.mem n l in
  List.iter (fun dir -> let nm = if dir = Cipher.Encrypt then "enc" else "dec" in
    keys ("aes-" ^ nm) 66 (is [16; 24; 32]) (fun k -> Cipher.aes k dir);
    keys ("des-" ^ nm) 26 (is [8]) (fun k -> Cipher.des k dir); keys ("3des-" ^ nm) 34 (is [16; 24]) (fun k -> Cipher.triple_des k dir);
    keys ("arcfour-" ^ nm) 260 (fun n -> n >= 1 && n <= 256) (fun k -> Cipher.arcfour k dir);
    keys ("chacha20-" ^ nm) 66 (is [16; 32]) (fun k -> Cipher.chacha20 k dir);
    keys ("gcm-" ^ nm) 40 (is [16; 24; 32]) (fun k -> aes_gcm ~iv:(det 12) k dir); keys ("chapoly-" ^ nm) 40 (is [16; 32]) (fun k -> chapoly ~iv:(det 12) k dir)) [Cipher.Encrypt; Cipher.Decrypt];
  (* Blowfish key set-up is long: lengths around the limits *)
  List.iter (fun (nm, mk) ->
    List.iter (fun n -> reg (Printf.sprintf "C14.key-blowfish-%s-%d" nm n) (fun () -> accepts "key" (n >= 4 && n <= 56) Wrong_key_size (fun () -> ignore (mk (det n))))) [0; 1; 2; 3; 4; 5; 17; 55; 56; 57; 58; 64; 72])
    ["enc", (fun k -> Cipher.blowfish k Cipher.Encrypt); "dec", (fun k -> Cipher.blowfish k Cipher.Decrypt)];
  keys "blake2b" 140 (fun n -> n <= 64) (MAC.blake2b 256); keys "blake2s" 80 (fun n -> n <= 32) (MAC.blake2s 128); keys "blake3" 70 (is [32]) (MAC.blake3 256); keys "blake3_256" 70 (is [32]) MAC.blake3_256;
  keys "blake2b512" 140 (fun n -> n <= 64) MAC.blake2b512; keys "blake2s256" 80 (fun n -> n <= 32) MAC.blake2s256;
  keys "siphash" 40 (is [16]) MAC.siphash; keys "siphash128" 40 (is [16]) MAC.siphash128;
  keys "cmac" 40 (is [16; 24; 32]) (fun k -> MAC.aes_cmac k); keys "mac-aes" 40 (is [16; 24; 32]) (fun k -> MAC.aes k); keys "mac-des" 40 (is [8]) (fun k -> MAC.des k);
  keys "mac-3des" 40 (is [16; 24]) (fun k -> MAC.triple_des k); keys "mac-des3" 40 (is [16; 24]) (fun k -> MAC.des_final_triple_des k);
  (* initial vectors *)
  let ivs nm max ok f = reg ("C14.iv-" ^ nm) (fun () ->
    let n = Sym.choose "length" 0 max in
    accepts "iv" (ok n) Wrong_IV_size (fun () -> ignore (f (det n)))) in
  List.iter (fun (bs, bn) ->
    List.iter (fun (nm, mk) -> ivs (Printf.sprintf "%s-%s" nm bn) (2 * bs + 2) ((=) bs) (fun iv -> mk iv (uc bs "k")))
      [ "cbc-enc", (fun iv c -> ignore (new Block.cbc_encrypt ~iv c)); "cbc-dec", (fun iv c -> ignore (new Block.cbc_decrypt ~iv c)); "cfb-enc", (fun iv c -> ignore (new Block.cfb_encrypt ~iv 2 c));
        "cfb-dec", (fun iv c -> ignore (new Block.cfb_decrypt ~iv 2 c)); "ofb", (fun iv c -> ignore (new Block.ofb ~iv 2 c)); "ctr", (fun iv c -> ignore (new Block.ctr ~iv c)); "mac", (fun iv c -> ignore (new Block.mac ~iv c));
        "mac3", (fun iv c -> ignore (new Block.mac_final_triple ~iv c c c)) ]) [8, "8"; 16, "16"];
  List.iter (fun (nm, mode) -> ivs ("aes-" ^ nm) 34 ((=) 16) (fun iv -> Cipher.aes ~mode ~iv (det 16) Cipher.Encrypt); ivs ("des-" ^ nm) 18 ((=) 8) (fun iv -> Cipher.des ~mode ~iv (det 8) Cipher.Decrypt);
    ivs ("3des-" ^ nm) 18 ((=) 8) (fun iv -> Cipher.triple_des ~mode ~iv (det 24) Cipher.Decrypt))
    ["cbc", Cipher.CBC; "cfb", Cipher.CFB 3; "ofb", Cipher.OFB 3; "ctr", Cipher.CTR; "ctr4", Cipher.CTR_N 4];
  ivs "cmac" 34 ((=) 16) (fun iv -> MAC.aes_cmac ~iv (det 16)); ivs "mac-aes" 34 ((=) 16) (fun iv -> MAC.aes ~iv (det 16)); ivs "mac-des" 34 ((=) 8) (fun iv -> MAC.des ~iv (det 8));
  ivs "chacha20" 26 (is [8; 12]) (fun iv -> Cipher.chacha20 ~iv (det 32) Cipher.Encrypt); ivs "chapoly" 26 (is [8; 12]) (fun iv -> chapoly ~iv (det 32) Cipher.Encrypt);
  ivs "chapoly-dec" 26 (is [8; 12]) (fun iv -> chapoly ~iv (det 32) Cipher.Decrypt);
  List.iter (fun n -> reg (Printf.sprintf "C14.chacha20-counter-%d" n) (fun () ->
    let ctr = Sym.int64 "counter" in
    accepts "counter" (n = 8 || Int64.shift_right_logical ctr 32 = 0L) Wrong_IV_size (fun () -> ignore (Cipher.chacha20 ~iv:(det n) ~ctr (det 32) Cipher.Encrypt)))) [8; 12];
  (* requested sizes: any integer *)
  let anyint l = Sym.int l min_int max_int in
  let sizes nm ok f = reg ("C14.size-" ^ nm) (fun () ->
    let sz = anyint "size" in
    match Sym.attempt (fun () -> (f sz : hash)) with
    | Sym.Val h -> Sym.check "size accepted only if documented" (ok sz); Sym.check "advertised size" (h#hash_size * 8 = sz)
    | Sym.Exn e -> Sym.check "documented error, and only if needed" (not (ok sz) && e = Error Wrong_key_size)) in
  let sha sz = sz = 224 || sz = 256 || sz = 384 || sz = 512 in
  sizes "sha2" sha Hash.sha2; sizes "sha3" sha Hash.sha3; sizes "keccak" sha Hash.keccak;
  sizes "blake2b" (fun sz -> sz >= 8 && sz <= 512 && sz land 7 = 0) Hash.blake2b; sizes "blake2s" (fun sz -> sz >= 8 && sz <= 256 && sz land 7 = 0) Hash.blake2s; sizes "blake3" (fun sz -> sz > 0 && sz land 7 = 0) Hash.blake3;
  sizes "mac-blake2b" (fun sz -> sz >= 8 && sz <= 512 && sz land 7 = 0) (fun sz -> MAC.blake2b sz (det 20)); sizes "mac-blake2s" (fun sz -> sz >= 8 && sz <= 256 && sz land 7 = 0) (fun sz -> MAC.blake2s sz (det 20));
  sizes "mac-blake3" (fun sz -> sz > 0 && sz land 7 = 0) (fun sz -> MAC.blake3 sz (det 32));
  (* advertised and actual sizes *)
  let hsz nm n f = reg ("C14.hash_size-" ^ nm) (fun () ->
    let h = (f () : hash) in
    Sym.check "advertised" (h#hash_size = n);
    let d = if nm = "blake3-16384" || String.sub nm 0 3 = "kec" || (String.length nm > 4 && String.sub nm 0 4 = "sha3") then "" else Sym.string "data" 3 in
    h#add_string d; Sym.check "actual" (String.length h#result = n);
    let t = transform_and_hash (Hexa.encode ()) (f ()) and u = transform_then_hash (Hexa.encode ()) (f ()) in
    Sym.check "tag size" (t#tag_size = n && u#tag_size = n)) in
  let k = det in
  List.iter (fun (nm, n, f) -> hsz nm n f)
    ["sha1", 20, Hash.sha1; "sha224", 28, Hash.sha224; "sha256", 32, Hash.sha256; "sha384", 48, Hash.sha384; "sha512", 64, Hash.sha512; "ripemd160", 20, Hash.ripemd160; "md5", 16, Hash.md5; "blake2b512", 64, Hash.blake2b512;
     "blake2s256", 32, Hash.blake2s256; "blake3_256", 32, Hash.blake3_256; "hmac_sha1", 20, (fun () -> MAC.hmac_sha1 (k 7)); "hmac_sha256", 32, (fun () -> MAC.hmac_sha256 (k 7)); "hmac_sha384", 48, (fun () -> MAC.hmac_sha384 (k 7)); "hmac_sha512", 64, (fun () -> MAC.hmac_sha512 (k 7));
     "hmac_ripemd160", 20, (fun () -> MAC.hmac_ripemd160 (k 7)); "hmac_md5", 16, (fun () -> MAC.hmac_md5 (k 7)); "mac-blake2b512", 64, (fun () -> MAC.blake2b512 (k 7)); "mac-blake2s256", 32, (fun () -> MAC.blake2s256 (k 7)); "mac-blake3_256", 32, (fun () -> MAC.blake3_256 (k 32));
     "cmac", 16, (fun () -> MAC.aes_cmac (k 16)); "mac-aes", 16, (fun () -> MAC.aes ~pad:Padding.length (k 16)); "mac-des", 8, (fun () -> MAC.des ~pad:Padding.length (k 8)); "mac-3des", 8, (fun () -> MAC.triple_des ~pad:Padding.length (k 24)); "mac-des3", 8, (fun () -> MAC.des_final_triple_des ~pad:Padding.length (k 16));
     "siphash", 8, (fun () -> MAC.siphash (k 16)); "siphash128", 16, (fun () -> MAC.siphash128 (k 16)); "blake3-16384", 2048, (fun () -> Hash.blake3 16384)];
  List.iter (fun sz -> hsz (Printf.sprintf "sha2-%d" sz) (sz / 8) (fun () -> Hash.sha2 sz); hsz (Printf.sprintf "sha3-%d" sz) (sz / 8) (fun () -> Hash.sha3 sz); hsz (Printf.sprintf "keccak-%d" sz) (sz / 8) (fun () -> Hash.keccak sz)) [224; 256; 384; 512];
  for i = 1 to 64 do hsz (Printf.sprintf "blake2b-%d" (8 * i)) i (fun () -> Hash.blake2b (8 * i)); hsz (Printf.sprintf "mac-blake2b-%d" (8 * i)) i (fun () -> MAC.blake2b (8 * i) (k 9)); hsz (Printf.sprintf "blake3-%d" (8 * i)) i (fun () -> Hash.blake3 (8 * i)) done;
  for i = 1 to 32 do hsz (Printf.sprintf "blake2s-%d" (8 * i)) i (fun () -> Hash.blake2s (8 * i)); hsz (Printf.sprintf "mac-blake2s-%d" (8 * i)) i (fun () -> MAC.blake2s (8 * i) (k 9)) done;
  List.iter (fun i -> hsz (Printf.sprintf "mac-blake3-%d" (8 * i)) i (fun () -> MAC.blake3 (8 * i) (k 32))) [1; 31; 33; 64; 65; 100];
  reg "C14.blocks" (fun () ->
    Sym.set "uf-aes" 1;
    let b l n (c : Block.block_cipher) = Sym.check (l ^ " block size") (c#blocksize = n) in
    b "aes" 16 (new Block.aes_encrypt (k 16)); b "aes" 16 (new Block.aes_decrypt (k 32)); b "des" 8 (new Block.des_encrypt (k 8)); b "des" 8 (new Block.des_decrypt (k 8)); b "3des" 8 (new Block.triple_des_encrypt (k 16)); b "3des" 8 (new Block.triple_des_decrypt (k 24));
    b "cbc" 16 (new Block.cbc_encrypt (uc 16 "k")); b "cbc" 8 (new Block.cbc_decrypt (uc 8 "k")); b "cfb" 5 (new Block.cfb_encrypt 5 (uc 8 "k")); b "cfb" 3 (new Block.cfb_decrypt 3 (uc 8 "k")); b "ofb" 7 (new Block.ofb 7 (uc 8 "k")); b "ctr" 8 (new Block.ctr ~inc:2 (uc 8 "k"));
    (* the transform consumes and produces units of the advertised sizes *)
    let t l i o (tr : transform) = Sym.check (l ^ " sizes") (tr#input_block_size = i && tr#output_block_size = o) in
    let e = Cipher.Encrypt and d = Cipher.Decrypt in
    t "aes" 16 16 (Cipher.aes (k 16) e); t "aes pad" 1 16 (Cipher.aes ~pad:Padding.length (k 16) e); t "aes unpad" 16 1 (Cipher.aes ~pad:Padding.length (k 16) d); t "aes cfb" 3 3 (Cipher.aes ~mode:(Cipher.CFB 3) (k 16) e);
    t "aes ofb" 1 1 (Cipher.aes ~mode:(Cipher.OFB 1) (k 16) e); t "aes ctr" 16 16 (Cipher.aes ~mode:Cipher.CTR (k 16) e); t "des" 8 8 (Cipher.des (k 8) d); t "3des pad" 1 8 (Cipher.triple_des ~pad:Padding._8000 (k 16) e);
    t "arcfour" 1 1 (Cipher.arcfour (k 5) e); t "chacha20" 1 1 (Cipher.chacha20 (k 16) d); t "hex" 1 1 (Hexa.encode ()); t "compose" 16 8 (compose (Cipher.aes (k 16) e) (Cipher.des ~pad:Padding.length (k 8) e));
    let a l (tr : authenticated_transform) = Sym.check (l ^ " sizes") (tr#input_block_size = 1 && tr#output_block_size = 1 && tr#tag_size = 16) in
    a "gcm" (aes_gcm ~iv:(k 12) (k 16) e); a "gcm" (aes_gcm ~iv:(k 7) (k 32) d); a "chapoly" (chapoly ~iv:(k 8) (k 32) e); a "chapoly" (chapoly ~iv:(k 12) (k 16) d));
  (* data that is not a whole number of blocks *)
  List.iter (fun (nm, bs, mk) -> for n = 0 to 2 * bs + 1 do reg (Printf.sprintf "C14.data-%s-%d" nm n) (fun () ->
      let d = Sym.string "data" n in
      let t = (mk () : transform) in
      accepts "data length" (n mod bs = 0) Wrong_data_length (fun () -> t#put_string d; t#finish)) done)
    ["block8", 8, (fun () -> new Block.cipher (uc 8 "k")); "cfb3", 3, (fun () -> new Block.cipher (new Block.cfb_encrypt 3 (uc 8 "k")))];
  reg "C14.mac3-block-sizes" (fun () ->
    List.iter (fun (a, b, c) -> accepts "block sizes" (a = b && b = c) Incompatible_block_size (fun () -> ignore (new Block.mac_final_triple (uc a "k") (uc b "k") (uc c "k")))) [8, 8, 8; 8, 16, 8; 8, 8, 16; 16, 8, 8; 8, 16, 16; 16, 16, 16])

(* ---------------------------------------------------------------- C23 *)
let rest ic =
  let b = Bytes.create 64 in
  let rec go acc = let r = input ic b 0 64 in if r = 0 then acc else go (acc ^ bsub b 0 r) in go ""
let chunked l n = if n <= 6 then Sym.ic_chunks l n else begin
  let sz = [|1; 255; 257|] in
  let a = sz.(Sym.choose "chunk1" 0 2) in let b = sz.(Sym.choose "chunk2" 0 2) in
  [|a; b; 37|] end
let () =
  List.iter (fun (nm, mk, sp) ->
    List.iter (fun n ->
      reg (Printf.sprintf "C23.%s-eof-%d" nm n) (fun () ->
        let d = Sym.string "data" n in
        let oc = Sym.chan_out () in
        transform_channel (mk ()) (Sym.chan_in d (chunked "chunks" n)) oc;
        Sym.check_eq "output" (sp d) (Sym.chan_text oc));
      reg (Printf.sprintf "C23.%s-len-%d" nm n) (fun () ->
        let d = Sym.string "data" n in
        let oc = Sym.chan_out () in
        let ic = Sym.chan_in d (chunked "chunks" n) in
        let len = if n <= 6 then Sym.choose "len" 0 (n + 2) else [|1; 255; 256; 257; n - 1; n; n + 1|].(Sym.choose "len" 0 6) in
        match Sym.attempt (fun () -> transform_channel (mk ()) ~len ic oc) with
        | Sym.Val () -> Sym.check "enough input" (len <= n); Sym.check_eq "output" (sp (sub d 0 len)) (Sym.chan_text oc); Sym.check_eq "rest of the input" (sub d len (n - len)) (rest ic)
        | Sym.Exn e -> Sym.check "End_of_file" (len > n && e = End_of_file))) [0; 1; 2; 3; 5; 300; 520])
    ["stream", (fun () -> new Stream.cipher (new addstr)), addstr_spec; "padded", (fun () -> new Block.cipher_padded_encrypt Padding.length (new addblk 8)), (fun s -> addblk_spec 8 (pad_spec 8 s))];
  List.iter (fun n ->
    let hsh nm (mk : unit -> hash) sp =
      reg (Printf.sprintf "C23.%s-eof-%d" nm n) (fun () ->
        let d = Sym.string "data" n in
        Sym.check_eq "digest" (sp d) (hash_channel (mk ()) (Sym.chan_in d (chunked "chunks" n))));
      reg (Printf.sprintf "C23.%s-len-%d" nm n) (fun () ->
        let d = Sym.string "data" n in
        let ic = Sym.chan_in d (chunked "chunks" n) in
        let len = if n <= 6 then Sym.choose "len" 0 (n + 2) else [|1; 255; 256; 257; n - 1; n; n + 1|].(Sym.choose "len" 0 6) in
        match Sym.attempt (fun () -> hash_channel (mk ()) ~len ic) with
        | Sym.Val r -> Sym.check "enough input" (len <= n); Sym.check_eq "digest" (sp (sub d 0 len)) r; Sym.check_eq "rest of the input" (sub d len (n - len)) (rest ic)
        | Sym.Exn e -> Sym.check "End_of_file" (len > n && e = End_of_file)) in
    hsh "hash" (fun () -> new uhash "H") (uhash_spec "H")) [0; 1; 2; 3; 5; 300; 520];
  (* the real hash functions and ciphers, in any three reads *)
  List.iter (fun (nm, mk) -> reg ("C23.real-" ^ nm) (fun () ->
      let d = Sym.string "data" 20 in
      let a = [|1; 7; 18|].(Sym.choose "first" 0 2) in
      Sym.check_eq "digest" (hash_string (mk ()) d) (hash_channel (mk ()) (Sym.chan_in d [|a; 1; 20|]))))
    ["sha1", Hash.sha1; "sha256", Hash.sha256; "sha512", Hash.sha512; "blake2b", Hash.blake2b512; "blake2s", Hash.blake2s256; "blake3", Hash.blake3_256; "ripemd160", Hash.ripemd160; "md5", Hash.md5];
  List.iter (fun (nm, mk) -> reg ("C23.real-" ^ nm) (fun () ->
      let d = Sym.string "data" 20 in
      let a = Sym.choose "first" 1 18 in
      let oc = Sym.chan_out () in
      transform_channel (mk ()) (Sym.chan_in d [|a; 1; 20|]) oc;
      Sym.check_eq "output" (transform_string (mk ()) d) (Sym.chan_text oc)))
    ["chacha20", (fun () -> Cipher.chacha20 (det 32) Cipher.Encrypt); "arcfour", (fun () -> Cipher.arcfour (det 5) Cipher.Encrypt); "aes", (fun () -> Sym.set "uf-aes" 1; Cipher.aes ~pad:Padding.length (det 16) Cipher.Encrypt); "hex", Hexa.encode; "base64", Base64.encode_compact]

(* ---------------------------------------------------------------- C24 *)
let has p s = String.length s >= String.length p && sub s 0 (String.length p) = p
let copy s = sub s 0 (String.length s)
let () =
  let same l a b = Sym.check_eq (l ^ " unchanged") a b in
  (* transforms *)
  let tr nm kl ivl n (mk : string -> string -> unit -> transform) =
    reg ("C24.inputs-" ^ nm) (fun () ->
      Sym.set "uf-aes" 1;
      let key = Sym.string "key" kl and iv = Sym.string "iv" ivl and data = Sym.string "data" n in
      let k0 = Bytes.to_string (Bytes.of_string key) and i0 = Bytes.to_string (Bytes.of_string iv) and d0 = Bytes.to_string (Bytes.of_string data) in
      let t = mk key iv () in
      t#put_string data;
      let b = Bytes.of_string ("[" ^ d0 ^ "]") in
      let a = t#get_string in
      t#put_substring b 1 n;
      Sym.check_eq "buffer unchanged" ("[" ^ d0 ^ "]") (Bytes.to_string b);
      (* the caller reuses its buffer *)
      Bytes.fill b 0 (n + 2) '#';
      let mid = t#get_string in
      let mid0 = Bytes.to_string (Bytes.of_string mid) in
      (match t#finish with () -> () | exception Error _ -> ());
      let r = t#get_string in
      let r0 = Bytes.to_string (Bytes.of_string r) and a0 = Bytes.to_string (Bytes.of_string a) in
      t#wipe;
      same "key" k0 key; same "iv" i0 iv; same "data" d0 data; same "earlier output" a0 a; same "output" mid0 mid; same "last output" r0 r;
      (* as without the caller's changes *)
      let u = mk k0 i0 () in
      u#put_string (d0 ^ d0);
      (match u#finish with () -> () | exception Error _ -> ());
      Sym.check_eq "result" u#get_string (a0 ^ mid0 ^ r0)) ;
    reg ("C24.two-" ^ nm) (fun () ->
      Sym.set "uf-aes" 1;
      let key = Sym.string "key" kl and iv = Sym.string "iv" ivl and d1 = Sym.string "data1" n and d2 = Sym.string "data2" n in
      let alone d = let t = mk key iv () in t#put_string d; t#put_string d; (match t#finish with () -> () | exception Error _ -> ()); let r = t#get_string in Bytes.to_string (Bytes.of_string r) in
      let r1 = alone d1 and r2 = alone d2 in
      let a = mk key iv () in
      a#put_string d1;
      let b = mk key iv () in
      b#put_string d2;
      let a1 = a#get_string in
      a#put_string d1; b#put_string d2;
      (match a#finish with () -> () | exception Error _ -> ());
      let a2 = a#get_string in
      a#wipe;
      (match b#finish with () -> () | exception Error _ -> ());
      Sym.check_eq "second" r2 b#get_string;
      Sym.check_eq "first" r1 (a1 ^ a2)) in
  let e = Cipher.Encrypt and d = Cipher.Decrypt in
  tr "aes-cbc" 16 16 21 (fun k iv () -> Cipher.aes ~pad:Padding.length ~iv k e); tr "aes-cbc-dec" 16 16 32 (fun k iv () -> Cipher.aes ~iv k d);
  tr "aes-ctr" 32 8 32 (fun k iv () -> Cipher.aes ~mode:Cipher.CTR ~iv:(iv ^ "\000\001\002\003\004\005\255\254") k e); tr "aes-cfb" 16 16 20 (fun k iv () -> Cipher.aes ~mode:(Cipher.CFB 5) ~iv k e); tr "aes-ofb" 24 16 20 (fun k iv () -> Cipher.aes ~mode:(Cipher.OFB 5) ~iv k d);
  tr "chacha20-8" 32 8 70 (fun k iv () -> Cipher.chacha20 ~iv k e); tr "chacha20-12" 16 12 70 (fun k iv () -> Cipher.chacha20 ~iv k e);
  tr "arcfour" 0 0 20 (fun _ _ () -> Cipher.arcfour (det 7) e); tr "hex" 0 0 20 (fun _ _ () -> Hexa.encode ()); tr "base64" 0 0 20 (fun _ _ () -> Base64.encode_multiline ());
  tr "compose" 8 8 21 (fun k iv () -> compose (new Block.cipher_padded_encrypt Padding._8000 (new Block.cbc_encrypt ~iv (uc 8 k))) (Hexa.encode ()));
  tr "abstract" 8 8 21 (fun k iv () -> new Block.cipher_padded_encrypt Padding._8000 (new Block.cbc_encrypt ~iv (uc 8 k)));
  tr "des" 8 8 16 (fun k iv () -> Cipher.des ~iv k e); tr "3des" 16 8 16 (fun k iv () -> Cipher.triple_des ~iv k d);
  (* hashes and MACs *)
  let rec hs ?(fixed = false) nm kl n (mk : string -> unit -> hash) =
    if not fixed && (has "sha3" nm && nm <> "sha384" && nm <> "sha384-long" || has "kecc" nm) then hs ~fixed:true nm kl n mk;
    let str l n = if fixed then sub (det 200) (String.length l) n else Sym.string l n in
    let pre = if fixed then "C24.fixed-" else if (has "sha3" nm && nm <> "sha384" && nm <> "sha384-long" || has "kecc" nm) then "+C24." else "C24." in
    reg (pre ^ "inputs-" ^ nm) (fun () ->
      if has "siph" nm then Sym.set "words" 1;
      let key = str "key" kl and data = str "data" n in
      let k0 = Bytes.to_string (Bytes.of_string key) and d0 = Bytes.to_string (Bytes.of_string data) in
      let h = mk key () in
      h#add_string data;
      let b = Bytes.of_string ("[" ^ d0 ^ "]") in
      h#add_substring b 1 n;
      Sym.check_eq "buffer unchanged" ("[" ^ d0 ^ "]") (Bytes.to_string b);
      Bytes.fill b 0 (n + 2) '#';
      let r = h#result in
      let r0 = Bytes.to_string (Bytes.of_string r) in
      h#wipe;
      same "key" k0 key; same "data" d0 data; same "digest" r0 r;
      let u = mk k0 () in
      u#add_string (if has "siph" nm then d0 else d0 ^ d0); if has "siph" nm then u#add_string d0;
      Sym.check_eq "result" u#result r0);
    reg (pre ^ "two-" ^ nm) (fun () ->
      let key = str "key" kl and d1 = str "data1" n and d2 = str "data2+" n in
      let alone d = let h = mk key () in h#add_string d; h#add_string d; let r = h#result in Bytes.to_string (Bytes.of_string r) in
      let r1 = alone d1 and r2 = alone d2 in
      let a = mk key () in
      a#add_string d1;
      let b = mk key () in
      b#add_string d2; a#add_string d1;
      let a1 = a#result in
      b#add_string d2; a#wipe;
      Sym.check_eq "second" r2 b#result;
      Sym.check_eq "first" r1 a1) in
  List.iter (fun (nm, f) -> hs nm 0 20 (fun _ () -> f ()); hs (nm ^ "-long") 0 90 (fun _ () -> f ()))
    ["sha1", Hash.sha1; "sha224", Hash.sha224; "sha256", Hash.sha256; "sha384", Hash.sha384; "sha512", Hash.sha512; "sha3", (fun () -> Hash.sha3 256); "keccak", (fun () -> Hash.keccak 512); "ripemd160", Hash.ripemd160; "md5", Hash.md5; "blake2b", Hash.blake2b512; "blake2s", Hash.blake2s256; "blake3", Hash.blake3_256];
  List.iter (fun (nm, kl, f) -> hs nm kl 20 (fun k () -> f k))
    ["hmac_sha1", 20, MAC.hmac_sha1; "hmac_sha256", 64, MAC.hmac_sha256; "hmac_sha256-70", 70, MAC.hmac_sha256; "hmac_sha384", 30, MAC.hmac_sha384; "hmac_sha512", 130, MAC.hmac_sha512; "hmac_ripemd160", 10, MAC.hmac_ripemd160; "hmac_md5", 20, MAC.hmac_md5; "mac-blake2b", 64, MAC.blake2b512; "mac-blake2s", 20, MAC.blake2s256;
     "mac-blake3", 32, MAC.blake3_256; "siphash", 16, MAC.siphash; "siphash128", 16, MAC.siphash128; "cmac", 16, (fun k -> Sym.set "uf-aes" 1; MAC.aes_cmac k); "mac-aes", 16, (fun k -> Sym.set "uf-aes" 1; MAC.aes ~pad:Padding.length k)];
  (* authenticated encryption *)
  let au nm kl ivl mk =
    reg ("C24.inputs-" ^ nm) (fun () ->
      Sym.set "uf-aes" 1; Sym.set "uf-ghash" 1; Sym.set "uf-poly" 1;
      let key = Sym.string "key" kl and iv = Sym.string "iv" ivl and hd = Sym.string "header" 20 and data = Sym.string "data" 40 in
      let c s = Bytes.to_string (Bytes.of_string s) in
      let k0 = c key and i0 = c iv and h0 = c hd and d0 = c data in
      let t = (mk ~header:hd ~iv key : authenticated_transform) in
      t#put_string data;
      let b = Bytes.of_string ("[" ^ d0 ^ "]") in
      let a = t#get_string in
      t#put_substring b 1 40;
      Sym.check_eq "buffer unchanged" ("[" ^ d0 ^ "]") (Bytes.to_string b);
      Bytes.fill b 0 42 '#';
      let tag = t#finish_and_get_tag in
      let r = t#get_string in
      let tag0 = c tag and r0 = c r and a0 = c a in
      t#wipe;
      same "key" k0 key; same "iv" i0 iv; same "header" h0 hd; same "data" d0 data; same "tag" tag0 tag; same "output" r0 r; same "earlier output" a0 a;
      let u = (mk ~header:h0 ~iv:i0 k0 : authenticated_transform) in
      Sym.check_eq "result" (auth_transform_string u (d0 ^ d0)) (a0 ^ r0 ^ tag0));
    reg ("C24.two-" ^ nm) (fun () ->
      Sym.set "uf-aes" 1; Sym.set "uf-ghash" 1; Sym.set "uf-poly" 1;
      let key = Sym.string "key" kl and iv = Sym.string "iv" ivl and d1 = Sym.string "data1" 20 and d2 = Sym.string "data2" 20 in
      let mk () = (mk ~header:"h" ~iv key : authenticated_transform) in
      let alone d = auth_transform_string (mk ()) (d ^ d) in
      let r1 = alone d1 and r2 = alone d2 in
      let a = mk () in
      a#put_string d1;
      let b = mk () in
      b#put_string d2; a#put_string d1;
      let ta = a#finish_and_get_tag in
      let oa = a#get_string in
      a#wipe;
      b#put_string d2;
      let tb = b#finish_and_get_tag in
      Sym.check_eq "second" r2 (b#get_string ^ tb);
      Sym.check_eq "first" r1 (oa ^ ta)) in
  au "gcm" 16 12 (fun ~header ~iv k -> aes_gcm ~header ~iv k e); au "gcm-iv17" 32 17 (fun ~header ~iv k -> aes_gcm ~header ~iv k e); au "gcm-dec" 16 12 (fun ~header ~iv k -> aes_gcm ~header ~iv k d);
  au "chapoly" 32 12 (fun ~header ~iv k -> chapoly ~header ~iv k e); au "chapoly-8" 16 8 (fun ~header ~iv k -> chapoly ~header ~iv k e); au "chapoly-dec" 32 12 (fun ~header ~iv k -> chapoly ~header ~iv k d);
  (* generators *)
  List.iter (fun (nm, mk) ->
    reg ("C24.inputs-" ^ nm) (fun () ->
      Sym.set "uf-aes" 1;
      let seed = Sym.string "seed" 32 in
      let s0 = Bytes.to_string (Bytes.of_string seed) in
      let g = (mk seed : Random.rng) in
      let r = Random.string g 40 in
      let r0 = Bytes.to_string (Bytes.of_string r) in
      ignore (Random.string g 40);
      same "seed" s0 seed;         (* wiping a generator erases its seed by design *)
      g#wipe; same "output" r0 r);
    reg ("C24.two-" ^ nm) (fun () ->
      Sym.set "uf-aes" 1;
      let seed = Sym.string "seed" 32 and seed2 = Sym.string "seed2" 32 in
      let alone s = let g = (mk s : Random.rng) in let a = Random.string g 20 in a ^ Random.string g 60 in
      let r1 = alone seed and r2 = alone seed2 in
      let a = mk seed and b = mk seed2 in
      let a1 = Random.string a 20 in
      let b1 = Random.string b 20 in
      let a2 = Random.string a 60 in
      a#wipe;
      let b2 = Random.string b 60 in
      Sym.check_eq "first" r1 (a1 ^ a2); Sym.check_eq "second" r2 (b1 ^ b2)))
    ["pseudo_rng", Random.pseudo_rng; "pseudo_rng_aes", Random.pseudo_rng_aes_ctr];
  (* block and stream ciphers: the source is not written, and may be reused *)
  List.iter (fun (nm, kl, mk) -> reg ("C24.source-" ^ nm) (fun () ->
      let key = Sym.string "key" kl and data = Sym.string "data" 20 in
      let k0 = Bytes.to_string (Bytes.of_string key) in
      let c = (mk key : Block.block_cipher) in
      let n = c#blocksize in
      let s = Bytes.of_string data and o = Bytes.make 40 'o' in
      c#transform s 2 o 5;
      Sym.check_eq "source unchanged" data (Bytes.to_string s); Sym.check_eq "key unchanged" k0 key;
      Sym.check_eq "rest of the destination unchanged" ("ooooo" ^ String.make (35 - n) 'o') (bsub o 0 5 ^ bsub o (5 + n) (35 - n));
      c#wipe; Sym.check_eq "key unchanged by wipe" k0 key))
    [ "aes-enc", 16, new Block.aes_encrypt; "aes-dec", 16, new Block.aes_decrypt; "aes-enc-32", 32, new Block.aes_encrypt; "des", 8, new Block.des_encrypt; "3des", 24, new Block.triple_des_encrypt;
      "cbc", 8, (fun k -> new Block.cbc_encrypt ~iv:k (uc 8 k)); "cbc-dec", 8, (fun k -> new Block.cbc_decrypt ~iv:k (uc 8 k)); "cfb", 8, (fun k -> new Block.cfb_encrypt ~iv:k 3 (uc 8 k)); "cfb-dec", 8, (fun k -> new Block.cfb_decrypt ~iv:k 3 (uc 8 k));
      "ofb", 8, (fun k -> new Block.ofb ~iv:k 3 (uc 8 k)); "ctr", 8, (fun k -> new Block.ctr ~iv:k (uc 8 k)) ];
  List.iter (fun (nm, mk) -> reg ("C24.source-" ^ nm) (fun () ->
      let data = Sym.string "data" 90 in
      let c = (mk () : Stream.stream_cipher) in
      let s = Bytes.of_string data and o = Bytes.make 100 'o' in
      c#transform s 2 o 5 70;
      Sym.check_eq "source unchanged" data (Bytes.to_string s);
      Sym.check_eq "rest of the destination unchanged" (String.make 30 'o') (bsub o 0 5 ^ bsub o 75 25)))
    [ "chacha20", (fun () -> new Stream.chacha20 (Sym.string "key" 32)); "arcfour", (fun () -> new Stream.arcfour (det 5)) ]
