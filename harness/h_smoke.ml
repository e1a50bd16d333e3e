open Cryptokit
let () = Sym.register "hex" (fun () ->
  let s = Sym.string "s" 3 in
  let h = transform_string (Hexa.encode ()) s in
  let d = transform_string (Hexa.decode ()) h in
  Sym.check_eq "hex-roundtrip" s d)
let () = Sym.register "aes" (fun () ->
  let k = Sym.string "k" 16 in
  let s = Sym.string "s" 16 in
  let h = transform_string (Cipher.aes k Cipher.Encrypt ~mode:Cipher.ECB) s in
  let d = transform_string (Cipher.aes k Cipher.Decrypt ~mode:Cipher.ECB) h in
  Sym.check_eq "aes" s d)
