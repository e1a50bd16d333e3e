(* shared by the harnesses *)
open Cryptokit
let xors a b = String.init (String.length a) (fun i -> Char.unsafe_chr (Char.code a.[i] lxor Char.code b.[i]))
let sub = String.sub
let bsub = Bytes.sub_string

(* an arbitrary block cipher: an uninterpreted permutation *)
let uenc ?(n = "E") key b = Sym.uf ("perm+:" ^ n) (String.length b) [| key; b |]
let udec ?(n = "E") key b = Sym.uf ("perm-:" ^ n) (String.length b) [| key; b |]
class ucipher ?(n = "E") bs f key : Block.block_cipher =
  object
    method blocksize = bs
    method transform src so dst d =
      if so < 0 || so > Bytes.length src - bs || d < 0 || d > Bytes.length dst - bs then invalid_arg "ucipher";
      Bytes.blit_string (f key (bsub src so bs)) 0 dst d bs
    method wipe = ()
  end
let uc ?n bs key = new ucipher bs (uenc ?n) key
let ud ?n bs key = new ucipher bs (udec ?n) key
(* an arbitrary stream cipher: key stream byte i is an uninterpreted function of i *)
class ustream name : Stream.stream_cipher =
  object
    val mutable pos = 0
    method transform src so dst d len =
      if len < 0 || so < 0 || so > Bytes.length src - len || d < 0 || d > Bytes.length dst - len then invalid_arg "ustream";
      for i = 0 to len - 1 do
        let k = (Sym.uf ("ks:" ^ name) 1 [| string_of_int pos |]).[0] in
        Bytes.set dst (d + i) (Char.unsafe_chr (Char.code (Bytes.get src (so + i)) lxor Char.code k));
        pos <- pos + 1
      done
    method wipe = ()
  end
(* an arbitrary hash: collects its input, the digest is an uninterpreted function of all of it *)
class uhash ?(size = 16) name : hash =
  object (self)
    val mutable acc = ""
    method hash_size = size
    method add_substring b o l =
      if o < 0 || l < 0 || o > Bytes.length b - l then invalid_arg "uhash";
      acc <- acc ^ bsub b o l
    method add_string s = acc <- acc ^ s
    method add_char c = self#add_string (String.make 1 c)
    method add_byte b = self#add_char (Char.unsafe_chr (b land 255))
    method result = Sym.uf ("hash:" ^ name) size [| acc |]
    method wipe = ()
  end
let uhash_spec ?(size = 16) name s = Sym.uf ("hash:" ^ name) size [| s |]

let blocks n s = List.init (String.length s / n) (fun i -> sub s (i * n) n)
let cat = String.concat ""
let raises_any f = match f () with _ -> false | exception _ -> true
let expect l e f = match f () with
  | _ -> Sym.fail (l ^ ": no exception")
  | exception x -> Sym.check (l ^ ": exception") (x = e)
