(* C22: comparison and xor helpers.  C20: pseudo-random generators. *)
open Cryptokit
open Hutil
let reg = Sym.register
let det n = String.init n (fun i -> Char.chr ((i * 91 + 5) land 255))

(* ---------------------------------------------------------------- C22: xor *)
let lens = List.init 20 (fun i -> i) @ [31; 32; 33] @ List.init 10 (fun i -> 62 + i) @ [72; 79; 80; 87; 88; 95; 96]
let xor_case ls so d =
  List.iter (fun len ->
    let src = Sym.string "src" (so + len + 3) and old = Sym.string "dst" (d + len + 2) in
    let l = Printf.sprintf "length %d" len in
    let want = sub old 0 d ^ xors (sub old d len) (sub src so len) ^ sub old (d + len) 2 in
    let b = Bytes.of_string old in
    xor_string src so b d len;
    Sym.check_eq ("xor_string " ^ l) want (Bytes.to_string b);
    let s = Bytes.of_string src and b = Bytes.of_string old in
    xor_bytes s so b d len;
    Sym.check_eq ("xor_bytes " ^ l) want (Bytes.to_string b);
    Sym.check_eq ("source unchanged " ^ l) src (Bytes.to_string s)) ls
let () =
  for so = 0 to 8 do for d = 0 to 8 do
    reg (Printf.sprintf "C22.xor-%d-%d" so d) (fun () -> xor_case lens so d);
    if so = d || so = 0 then reg (Printf.sprintf "+C22.xor-%d-%d" so d) (fun () -> xor_case (List.init 140 (fun i -> i) @ [255; 256; 257; 1000]) so d)
  done done;
  List.iter (fun (o, len) -> reg (Printf.sprintf "C22.xor-itself-%d-%d" o len) (fun () ->
    let old = Sym.string "dst" (o + len + 2) in
    let b = Bytes.of_string old in
    xor_bytes b o b o len;
    Sym.check_eq "zero" (sub old 0 o ^ String.make len '\000' ^ sub old (o + len) 2) (Bytes.to_string b)))
    [0, 0; 0, 7; 1, 9; 3, 64; 0, 65; 5, 77]
(* ---------------------------------------------------------------- C22: equality *)
let eqs = List.init 18 (fun i -> i) @ [20; 31; 32; 33; 63; 64; 65; 100]
let () =
  List.iter (fun n ->
    reg (Printf.sprintf "C22.equal-%d" n) (fun () ->
      let a = Sym.string "a" n and b = Sym.string "b" n in
      Sym.check "string_equal" (string_equal a b = String.equal a b);
      Sym.check "bytes_equal" (bytes_equal (Bytes.of_string a) (Bytes.of_string b) = String.equal a b);
      Sym.check "reflexive" (string_equal a (a ^ "") && bytes_equal (Bytes.of_string a) (Bytes.of_string a)));
    (* a single changed byte, at any place, by any amount *)
    if n > 0 then reg (Printf.sprintf "C22.differ-%d" n) (fun () ->
      let a = Sym.string "a" n in
      let i = Sym.choose "place" 0 (n - 1) and x = Sym.int "change" 1 255 in
      let b = Bytes.of_string a in
      Bytes.set b i (Char.unsafe_chr (Char.code a.[i] lxor x));
      Sym.check "string_equal" (not (string_equal a (Bytes.to_string b)));
      Sym.check "bytes_equal" (not (bytes_equal b (Bytes.of_string a))));
    List.iter (fun m -> if m <> n then reg (Printf.sprintf "C22.lengths-%d-%d" n m) (fun () ->
      let a = Sym.string "a" n and b = Sym.string "b" m in
      Sym.check "string_equal" (not (string_equal a b));
      Sym.check "bytes_equal" (not (bytes_equal (Bytes.of_string a) (Bytes.of_string b))))) [0; 1; 7; 8; 9; 15; 16; 17; 33]) eqs

(* ---------------------------------------------------------------- C20: pseudo-random generators *)
let le8 (x : int64) = String.init 8 (fun i -> Char.unsafe_chr (Int64.to_int (Int64.shift_right_logical x (8 * i)) land 255))
let be16 n = String.init 16 (fun i -> Char.unsafe_chr (if i < 8 then 0 else (n lsr (8 * (15 - i))) land 255))
let chacha_stream seed n =
  let l = String.length seed in
  let key = if l >= 32 then sub seed 0 32 else if l = 16 then seed else seed ^ String.make (32 - l) '\000' in
  Sym.spec "chacha" [||] [| key; String.make 8 '\000'; String.make n '\000'; le8 0L |]
let aes_stream seed n =
  sub (cat (List.init ((n + 15) / 16) (fun i -> Sym.uf "real:aes16" 16 [| sub seed 0 16; be16 i |]))) 0 n
let requests = [ "one", [200]; "bytes", [1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1; 1]; "odd", [3; 61; 1; 64; 65; 2];
  "edge", [63; 1; 64; 0; 1; 127; 0; 128]; "blocks", [64; 64; 64]; "sixteens", [15; 1; 16; 17; 0; 31; 32; 33]; "big", [130; 62; 0; 70] ]
let draw (r : Random.rng) l =
  let b = Buffer.create 64 in
  List.iteri (fun i n ->
    let o = i mod 3 in
    let old = Sym.string "buffer" (o + n + 2) in
    let d = Bytes.of_string old in
    r#random_bytes d o n;
    Sym.check_eq "surroundings" (sub old 0 o ^ sub old (o + n) 2) (bsub d 0 o ^ bsub d (o + n) 2);
    Buffer.add_string b (bsub d o n)) l;
  Buffer.contents b
let total = List.fold_left (+) 0
let () = List.iter (fun (rn, l) ->
  List.iter (fun sl ->
    reg (Printf.sprintf "C20.chacha-%d-%s" sl rn) (fun () ->
      let seed = Sym.string "seed" sl in
      Sym.check_eq "stream" (chacha_stream seed (total l)) (draw (Random.pseudo_rng (seed ^ "")) l))) (if rn = "odd" then [16; 17; 20; 24; 31; 32; 33; 40; 64] else [16; 32; 21]);
  List.iter (fun (hw, sl) ->
    reg (Printf.sprintf "C20.aes-%s-%d-%s" (if hw = 1 then "hw" else "sw") sl rn) (fun () ->
      Sym.set "hw" hw; Sym.set "uf-aes" 1;
      let seed = Sym.string "seed" sl in
      Sym.check_eq "stream" (aes_stream seed (total l)) (draw (Random.pseudo_rng_aes_ctr (seed ^ "")) l))) [1, 16; 0, 16; 1, 20; 1, 33]) requests
(* the real block cipher *)
let () = List.iter (fun hw -> reg (Printf.sprintf "C20.aes-real-%d" hw) (fun () ->
  Sym.set "hw" hw;
  let seed = Sym.string "seed" 18 in
  Sym.check_eq "stream" (sub (cat (List.init 3 (fun i -> Sym.spec "aes_enc" [||] [| sub seed 0 16; be16 i |]))) 0 40) (draw (Random.pseudo_rng_aes_ctr (seed ^ "")) [5; 20; 15]))) [0; 1]
(* counters carrying into the next byte *)
let () = reg "C20.aes-carry" (fun () ->
  Sym.set "uf-aes" 1;
  let seed = Sym.string "seed" 16 in
  let n = 16 * 258 in
  Sym.check_eq "stream" (aes_stream seed n) (draw (Random.pseudo_rng_aes_ctr (seed ^ "")) [n - 33; 33]));
  reg "+C20.aes-carry2" (fun () ->
  Sym.set "uf-aes" 1;
  let seed = Sym.string "seed" 16 in
  let n = 16 * 65538 in
  let r = Random.pseudo_rng_aes_ctr (seed ^ "") in
  let b = Bytes.create n in
  r#random_bytes b 0 n;
  List.iter (fun i -> Sym.check_eq "stream" (Sym.uf "real:aes16" 16 [| seed; be16 i |]) (bsub b (16 * i) 16)) [0; 1; 255; 256; 257; 511; 512; 65534; 65535; 65536; 65537])
(* the generator far along its stream: any block counter *)
external chacha20_cook_key : string -> bytes -> int64 -> bytes = "caml_chacha20_cook_key"
external chacha20_extract : bytes -> bytes -> int -> int -> unit = "caml_chacha20_extract"
let () = reg "C20.chacha-far" (fun () ->
  let seed = Sym.string "seed" 32 and ctr = Sym.int64 "ctr" in
  let k = chacha20_cook_key seed (Bytes.make 8 '\000') ctr in
  let b = Bytes.make 150 '\x55' in
  chacha20_extract k b 3 100; chacha20_extract k b 103 44;
  Sym.check_eq "stream" (Sym.spec "chacha" [||] [| seed; String.make 8 '\000'; String.make 144 '\000'; le8 ctr |]) (bsub b 3 144);
  Sym.check_eq "surroundings" "UUUUUU" (bsub b 0 3 ^ bsub b 147 3))
let () = List.iter (fun (n, ctr) -> reg ("C20.chacha-far-" ^ n) (fun () ->
  let seed = Sym.string "seed" 32 in
  let k = chacha20_cook_key seed (Bytes.make 8 '\000') ctr in
  let b = Bytes.make 150 '\x55' in
  chacha20_extract k b 3 100; chacha20_extract k b 103 44;
  Sym.check_eq "stream" (Sym.spec "chacha" [||] [| seed; String.make 8 '\000'; String.make 144 '\000'; le8 ctr |]) (bsub b 3 144)))
  [ "carry", 0xFFFFFFFEL; "carry2", 0xFFFFFFFFL; "big", 0x1234567890L; "wrap", -2L ]
(* short seeds *)
let () = for n = 0 to 15 do reg (Printf.sprintf "C20.short-%d" n) (fun () ->
    let seed = Sym.string "seed" n in
    expect "pseudo_rng" (Error Seed_too_short) (fun () -> ignore (Random.pseudo_rng seed));
    expect "pseudo_rng_aes_ctr" (Error Seed_too_short) (fun () -> ignore (Random.pseudo_rng_aes_ctr seed))) done
(* two generators, interleaved; the string helper; the seed stays intact until wiped *)
let () = reg "C20.interleaved" (fun () ->
  Sym.set "uf-aes" 1;
  let s1 = Sym.string "seed1" 32 and s2 = Sym.string "seed2" 20 in
  let c1 = s1 ^ "" and c2 = s2 ^ "" in
  let a = Random.pseudo_rng s1 and b = Random.pseudo_rng s2 and c = Random.pseudo_rng_aes_ctr s1 and d = Random.pseudo_rng_aes_ctr s2 in
  let a1 = Random.string a 30 in let b1 = Random.string b 40 in let c1' = Random.string c 20 in let d1 = Random.string d 7 in
  let a2 = Random.string a 50 in let b2 = Random.string b 30 in let c2' = Random.string c 20 in let d2 = Random.string d 33 in
  Sym.check_eq "first" (chacha_stream c1 80) (a1 ^ a2); Sym.check_eq "second" (chacha_stream c2 70) (b1 ^ b2);
  Sym.check_eq "third" (aes_stream c1 40) (c1' ^ c2'); Sym.check_eq "fourth" (aes_stream c2 40) (d1 ^ d2);
  Sym.check_eq "seed intact" c1 s1; Sym.check_eq "seed intact" c2 s2)
