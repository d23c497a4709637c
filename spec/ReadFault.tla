----------------------------- MODULE ReadFault -----------------------------
(* C17.  A file is a sequence of fields; a reader consumes them in order.    *)
(* The input may end early ("cut"), fail ("err"), or arrive in portions      *)
(* ("chunk").  Formats that mark their own extent must notice a cut; a text  *)
(* FBX file does not, and may only deliver the top level nodes complete      *)
(* before the cut.                                                           *)
EXTENDS Common

(* whole: result of the undamaged file.  ends: for open formats, the results *)
(* after each complete top level element, as [at, digest].                   *)
Prefix(ends, at) == LET S == { i \in DOMAIN ends : ends[i].at <= at } IN
  IF S = {} THEN "none" ELSE ends[Max(S)].digest
Allowed(whole, how, at, ok, digest) ==
  CASE how = "chunk" -> ok /\ digest = whole.digest
    [] how = "err" -> ~ok \/ digest = whole.digest
    [] OTHER -> IF whole.open THEN ~ok \/ digest = whole.digest \/ digest = Prefix(whole.ends, at)
                ELSE ~ok \/ digest = whole.digest
=============================================================================
