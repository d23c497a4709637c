----------------------------- MODULE SaveFault -----------------------------
(* C16.  A save produces one or more files.  Each is created, fed piece by   *)
(* piece through a buffer to a device, flushed and closed.  The device may   *)
(* fail: on creation, after a number of bytes (for good), at one write call  *)
(* (once), or on closing.  An error must stick and reach the caller.         *)
EXTENDS Common

(* A fault: [file, kind, at]; kind "none" never strikes.  "limit" bounds the *)
(* size of every file.                                                       *)
Hit(full, f) ==
  CASE f.kind = "none" -> FALSE
    [] f.kind = "limit" -> \E i \in DOMAIN full : full[i].total > f.at
    [] f.kind = "create" -> f.file \in DOMAIN full
    [] f.kind = "close" -> f.file \in DOMAIN full
    [] f.kind = "bytes" -> f.file \in DOMAIN full /\ f.at < full[f.file].total
    [] f.kind = "call" -> f.file \in DOMAIN full /\ f.at < full[f.file].calls

(* What a caller may conclude. *)
ErrorReported(full, f, ok) == Hit(full, f) => ~ok
CompleteOnSuccess(full, f, ok, stored) == ok => stored = Map(full, LAMBDA x : x.total)
SucceedsWithoutFault(full, f, ok) == ~Hit(full, f) => ok
=============================================================================
