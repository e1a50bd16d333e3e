(* C18: the Zlib wrappers over an arbitrary library.  C19: random requests over an arbitrary entropy source. *)
open Cryptokit
open Hutil
let reg = Sym.register
module F = H_fake
let zerr = function Error (Compression_error _) -> true | _ -> false
(* ------------------------------------------------------------ C18 *)
let pieces = [ [3], false; [2; 2], false; [2; 2], true; [0; 1; 2], false; [1], true; [], false ]
let name ps = String.concat "-" (List.map string_of_int ps)
let run_compress ps fl b e hdr =
  F.reset b 0 e;
  let t = Zlib.compress ~level:5 ~write_zlib_header:hdr () in
  Sym.check "level passed on" (F.level () = 5);
  Sym.check "header flag passed on" ((F.wbits () > 0) = hdr && abs (F.wbits ()) = 15);
  let got = Buffer.create 100 and fed = Buffer.create 10 in
  let r = Sym.attempt (fun () ->
    List.iteri (fun i n ->
      let d = Sym.string "data" n in
      Buffer.add_string fed d;
      if i land 1 = 0 then t#put_string d
      else begin
        let b = Bytes.of_string ("<" ^ d ^ ">>") in
        t#put_substring b 1 n;
        Sym.check_eq "argument intact" ("<" ^ d ^ ">>") (Bytes.to_string b)
      end;
      Sym.check_eq "input passed on" (Buffer.contents fed) (F.log_in ());
      Sym.check "available output" (t#available_output + Buffer.length got = F.out_n ());
      if fl && i = 0 then begin
        let k = F.flushes () in
        t#flush;
        Sym.check "library asked to flush" (F.flushes () > k && F.last_flush () = 2);
        Buffer.add_string got t#get_string
      end) ps;
    t#finish;
    Buffer.add_string got t#get_string) in
  match r with
  | Val () ->
      Sym.check "no error hidden" (F.errors () = 0);
      Sym.check "finished when the library says so" (F.ended ());
      Sym.check_eq "every input byte passed on once" (Buffer.contents fed) (F.log_in ());
      Sym.check_eq "every output byte delivered once" (F.log_out ()) (Buffer.contents got);
      Sym.check "stream released once" (F.ends () = 1 && F.live () = 0)
  | Exn x -> Sym.check "error reported only when the library fails" (F.errors () > 0 && zerr x)
let run_uncompress ps fl b e hdr =
  F.reset b 0 e;
  let t = Zlib.uncompress ~expect_zlib_header:hdr () in
  Sym.check "header flag passed on" ((F.wbits () > 0) = hdr && abs (F.wbits ()) = 15);
  let got = Buffer.create 100 and total = List.fold_left (+) 0 ps in
  let d = Sym.string "data" total in
  let pos = ref 0 in
  let r = Sym.attempt (fun () ->
    List.iteri (fun i n ->
      let p = sub d !pos n in
      pos := !pos + n;
      if i land 1 = 0 then t#put_string p
      else t#put_substring (Bytes.of_string ("<" ^ p ^ ">>")) 1 n;
      if fl then begin t#flush; Buffer.add_string got t#get_string end;
      Sym.check_eq "input passed on" (sub d 0 !pos) (F.log_in ());
      Sym.check "available output" (t#available_output + Buffer.length got = F.out_n ())) ps;
    t#finish;
    Buffer.add_string got t#get_string) in
  let consumed = F.log_in () in
  Sym.check_eq "nothing but the input is passed on" (sub d 0 (min total (String.length consumed))) consumed;
  match r with
  | Val () ->
      Sym.check "no error hidden" (F.errors () = 0);
      Sym.check "truncated data refused" (F.ended ());
      Sym.check "trailing garbage refused" (String.length consumed = total);
      Sym.check_eq "every output byte delivered once" (F.log_out ()) (Buffer.contents got);
      Sym.check "stream released once" (F.ends () = 1 && F.live () = 0)
  | Exn x ->
      Sym.check "error class" (zerr x);
      Sym.check "error only for a cause" (F.errors () > 0 || (F.ended () && String.length consumed < total))
let () =
  List.iter (fun (ps, fl) ->
    let n = name ps ^ (if fl then "-flush" else "") in
    reg ("C18.compress-" ^ n) (fun () -> run_compress ps fl 3 0 true);
    reg ("+C18.compress5-" ^ n) (fun () -> run_compress ps fl 4 0 true);
    reg ("C18.uncompress-" ^ n) (fun () -> run_uncompress ps fl 3 0 true);
    reg ("+C18.uncompress5-" ^ n) (fun () -> run_uncompress ps fl 4 0 true);
    reg ("C18.compress-error-" ^ n) (fun () -> run_compress ps fl 1 (Sym.choose "fail at" 1 4) false);
    reg ("C18.uncompress-error-" ^ n) (fun () -> run_uncompress ps fl 1 (Sym.choose "fail at" 1 4) false)) pieces;
  reg "C18.init-error" (fun () ->
    F.reset 0 2 0;
    (match Sym.attempt (fun () -> ignore (Zlib.compress ())) with Val () -> Sym.fail "compress accepted" | Exn e -> Sym.check "compress: error" (zerr e));
    F.reset 0 2 0;
    (match Sym.attempt (fun () -> ignore (Zlib.uncompress ())) with Val () -> Sym.fail "uncompress accepted" | Exn e -> Sym.check "uncompress: error" (zerr e)));
  (* garbage in a later piece *)
  reg "C18.garbage-later" (fun () ->
    F.reset 1 0 0;
    let t = Zlib.uncompress () in
    let d = Sym.string "data" 2 in
    match Sym.attempt (fun () -> t#put_string d) with
    | Exn x -> Sym.check "error class" (zerr x)
    | Val () ->
        if F.ended () then begin
          match Sym.attempt (fun () -> t#put_string "x") with
          | Val () -> Sym.fail "garbage accepted"
          | Exn x -> Sym.check "garbage error" (zerr x)
        end else Sym.check "not ended" true)
(* the stubs on sizes beyond 32 bits: what they report is what the library did *)
type stream
type flush_command = Z_NO_FLUSH | Z_SYNC_FLUSH | Z_FULL_FLUSH | Z_FINISH
external deflate_init: int -> bool -> stream = "caml_zlib_deflateInit"
external deflate: stream -> bytes -> int -> int -> bytes -> int -> int -> flush_command -> bool * int * int = "caml_zlib_deflate_bytecode" "caml_zlib_deflate"
external inflate_init: bool -> stream = "caml_zlib_inflateInit"
external inflate: stream -> bytes -> int -> int -> bytes -> int -> int -> flush_command -> bool * int * int = "caml_zlib_inflate_bytecode" "caml_zlib_inflate"
let () = List.iter (fun (n, init, f) ->
    reg ("C18.sizes-" ^ n) (fun () ->
      F.reset 0 1 0;
      let zs = init () in
      F.reset 0 1 0;
      let b = Bytes.make 4 'x' and o = Bytes.make 4 'y' in
      let sl = Sym.int "srclen" 0 (1 lsl 40) and dl = Sym.int "dstlen" 0 (1 lsl 40) in
      let (fin, ui, uo) = f zs b 0 sl o 0 dl Z_NO_FLUSH in
      Sym.check "not finished" (not fin);
      Sym.check "consumed bytes reported exactly" (ui = F.in_n ());
      Sym.check "produced bytes reported exactly" (uo = F.out_n ())))
  [ "deflate", (fun () -> deflate_init 6 true), deflate; "inflate", (fun () -> inflate_init true), inflate ]

(* ------------------------------------------------------------ C19 *)
let around l = Sym.string "left" 3, Sym.string "right" 2
let request rng label ofs len =
  let l = Sym.string "left" ofs and m = Sym.string "mid" len and r = Sym.string "right" 2 in
  let b = Bytes.of_string (l ^ m ^ r) in
  let res = Sym.attempt (fun () -> rng#random_bytes b ofs len) in
  Sym.check_eq (label ^ ": before the range") l (bsub b 0 ofs);
  Sym.check_eq (label ^ ": after the range") r (bsub b (ofs + len) 2);
  (res, bsub b ofs len)
let closed = function Error Entropy_source_closed -> true | _ -> false
let lens = [0; 1; 2; 7; 8; 9; 15; 16; 17; 31; 33; 255; 256; 257; 300; 511; 512; 513; 600; 768; 769]
let () =
  List.iter (fun len ->
    reg (Printf.sprintf "C19.system-%d" len) (fun () ->
      let rng : Random.rng = Random.system_rng () in
      F.reset 0 0 0;
      let res, got = request rng "system" 3 len in
      Sym.check "system: success" (res = Sym.Val ());
      Sym.check_eq "system: filled with the bytes of the source" (F.log_out ()) got;
      (* a second request gives other bytes of the source *)
      F.reset 0 0 0;
      let _, got = request rng "again" 0 (min len 20) in
      Sym.check_eq "again: filled with the bytes of the source" (F.log_out ()) got;
      rng#wipe);
    reg (Printf.sprintf "C19.system-fails-%d" len) (fun () ->
      let rng : Random.rng = Random.system_rng () in
      F.reset 0 0 (Sym.choose "fail at" 1 4);
      match request rng "system" 1 len with
      | Val (), got -> Sym.check "success only if the source never failed" (F.errors () = 0); Sym.check_eq "filled" (F.log_out ()) got
      | Exn e, _ -> Sym.check "documented error" (closed e); Sym.check "the source failed" (F.errors () > 0));
    reg (Printf.sprintf "C19.secure-%d" len) (fun () ->
      F.reset 0 0 (Sym.choose "fail at" 0 2);
      match request Random.secure_rng "secure" 2 len with
      | Val (), got -> Sym.check "success only if the source never failed" (F.errors () = 0); Sym.check_eq "filled" (F.log_out ()) got
      | Exn e, _ -> Sym.check "documented error" (closed e); Sym.check "the source failed" (F.errors () > 0));
    if len < 100 then begin
      reg (Printf.sprintf "C19.string-%d" len) (fun () ->
        F.reset 0 0 0;
        let s = Random.string (Random.system_rng ()) len in
        Sym.check_eq "Random.string" (F.log_out ()) s);
      reg (Printf.sprintf "C19.device-%d" len) (fun () ->
        F.reset (if len <= 9 then 3 else if len <= 17 then 2 else 1) 0 0;
        let rng = Random.device_rng "/dev/fake" in
        Sym.check "device opened" (F.inits () = 1);
        let res, got = request rng "device" 2 len in
        Sym.check "device: success" (res = Sym.Val ());
        Sym.check_eq "device: filled with the bytes read" (F.log_out ()) got;
        rng#wipe;
        Sym.check "device closed" (F.live () = 0));
      reg (Printf.sprintf "C19.device-eof-%d" len) (fun () ->
        F.reset 1 0 (Sym.choose "eof at" 1 3);
        let rng = Random.device_rng "/dev/fake" in
        match request rng "device" 0 len with
        | Val (), got -> Sym.check "no end of file" (F.errors () = 0); Sym.check_eq "filled" (F.log_out ()) got
        | Exn e, _ -> Sym.check "documented error" (closed e); Sym.check "the source ended" (F.errors () > 0));
      reg (Printf.sprintf "C19.hardware-%d" len) (fun () ->
        (match Sym.attempt (fun () -> Random.hardware_rng ()) with
        | Exn e -> Sym.check "unavailable" (e = Error No_entropy_source)
        | Val rng ->
            Sym.set "rdfail" 0;
            match request rng "hardware" 3 len with
            | Val (), got -> Sym.check_eq "filled with the words of the instruction" (Sym.spec "rdrand_log" [| len |] [||]) got
            | Exn e, _ -> Sym.fail "hardware: success"))
    end) lens;
  List.iter (fun len -> reg (Printf.sprintf "C19.hardware-fails-%d" len) (fun () ->
    match Random.hardware_rng () with
    | rng ->
        Sym.set "rdfail" 23;
        (match request rng "hardware" 1 len with
        | Val (), got -> Sym.check_eq "filled with the words of the instruction" (Sym.spec "rdrand_log" [| len |] [||]) got
        | Exn e, _ -> Sym.check "documented error" (closed e); Sym.check "20 failures in a row" (Sym.spec "rdrand_failed" [||] [||] = "y"))
    | exception e -> Sym.check "unavailable" (e = Error No_entropy_source))) [0; 1; 8; 9; 16]
