(* Harness interface.  Under the symbolic engine these externals create symbolic
   values and proof obligations; in the native executable they replay a tape. *)
external bytes : string -> int -> bytes = "sym_bytes"
external string : string -> int -> string = "sym_bytes"
external int : string -> int -> int -> int = "sym_int"
external choose : string -> int -> int -> int = "sym_choose"
external int64 : string -> int64 = "sym_int64"
external assume : bool -> unit = "sym_assume"
external check : string -> bool -> unit = "sym_check"
external check_eq : string -> string -> string -> unit = "sym_check_eq"
external spec : string -> int array -> string array -> string = "sym_spec"
external uf : string -> int -> string array -> string = "sym_uf"
external set : string -> int -> unit = "sym_set"
external reach : string -> unit = "sym_reach"
external secret : string -> int -> string = "sym_secret"
external check_indep : string -> 'a -> unit = "sym_check_indep"
external check_unshared : string -> 'a -> string array -> unit = "sym_check_unshared"
external pick : unit -> string = "sym_pick"
external ready : (string * (unit -> unit)) list -> unit = "sym_ready"
external native : unit -> bool = "sym_native"
external poison : bytes -> int -> unit = "sym_poison"
external forge : 'a -> int -> int -> unit = "sym_forge"
(* the first string of at least n bytes held by an object: its C context *)
external ctx : 'a -> int -> bytes = "sym_ctx"
(* runs the finalisers of the C contexts reachable from an object; their number *)
external finalise : 'a -> int = "sym_finalise"
external opaque : 'a -> 'a = "sym_opaque"
external ic_chunks : string -> int -> int array = "sym_chunks"

(* a channel delivering the string in reads of at most the given sizes; an output channel and what was written to it *)
external chan_in : string -> int array -> in_channel = "sym_chan_in"
external chan_out : unit -> out_channel = "sym_chan_out"
external chan_text : out_channel -> string = "sym_chan_text"

let scenarios : (string * (unit -> unit)) list ref = ref []
let register name f = scenarios := (name, f) :: !scenarios
let check_eqb l a b = check_eq l (Bytes.to_string a) (Bytes.to_string b)
let fail l = check l false
(* run f; an exception other than the expected one is reported by the caller *)
type 'a outcome = Val of 'a | Exn of exn
let attempt f = match f () with v -> Val v | exception e -> Exn e

let main () =
  ready !scenarios;
  let n = pick () in
  match List.assoc_opt n !scenarios with
  | None -> prerr_endline ("no scenario " ^ n); exit 2
  | Some f ->
      (try f () with e -> print_endline ("SYM-EXN " ^ Printexc.to_string e));
      print_endline "SYM-END"; exit 0
