(* control of the stand-in environment (fakeenv.c) *)
external reset : int -> int -> int -> unit = "fk_reset"     (* budget of arbitrary calls, mode, call that fails (0: none) *)
external set : int -> int -> unit = "fk_set"
external log_in : unit -> string = "fk_in"
external log_out : unit -> string = "fk_out"
external stat : int -> int = "fk_stat"
let calls () = stat 0 and ends () = stat 1 and inits () = stat 2 and live () = stat 3 and errors () = stat 4 and ended () = stat 5 = 1
let in_n () = stat 6 and out_n () = stat 7 and flushes () = stat 8 and last_flush () = stat 9 and wbits () = stat 10 and level () = stat 11
