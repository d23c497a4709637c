--------------------------- MODULE UnityAssetsGen ---------------------------
(* Opening an archive entry by entry, looking up, closing; histories of two  *)
(* sources.  The implementation of the model refuses names that lead outside *)
(* and cleans up whenever opening fails.                                     *)
EXTENDS UnityAssets, Json
CONSTANTS MaxEntries, MaxOps

VARIABLES src,     \* the archive and its fault
          pos,     \* entries extracted so far
          phase,   \* "new", "extract", "open", "failed", "closed"
          inside,  \* [g, f] -> data written below the extraction folder
          outside, \* names written elsewhere
          tmp,     \* does the extraction folder exist
          tables,  \* assets found
          hist
vars == <<src, pos, phase, inside, outside, tmp, tables, hist>>

En(t, parts, data, guid) == [t |-> t, parts |-> parts, data |-> data, guid |-> guid, names |-> <<>>]
Alphabet == {
  En("dir", <<"A">>, <<>>, ""), En("file", <<"A", "asset">>, <<"one">>, ""), En("file", <<".", "A", "asset">>, <<"two", "">>, ""),
  En("file", <<"A", "pathname">>, <<"Assets/p1">>, ""), En("file", <<"A", "pathname">>, <<"Assets/p2", "00">>, ""),
  En("meta", <<"A", "asset.meta">>, <<>>, "A"),
  En("file", <<"B", "asset">>, <<"">>, ""), En("file", <<"B", "pathname">>, <<"Assets/p2">>, ""),
  En("file", <<"..", "up">>, <<"x">>, ""), En("file", <<"A", "..", "..", "..", "up2">>, <<"x">>, ""), En("file", <<"", "abs">>, <<"x">>, ""),
  En("dir", <<"..", "updir">>, <<>>, ""),
  En("link", <<"L">>, <<"..">>, ""), En("file", <<"L", "asset">>, <<"x">>, ""), En("hard", <<"B", "asset">>, <<"A/asset">>, "") }
Faults == {"none", "cut", "limit", "missing", "plain"}

Init == /\ src \in [kind : {"package"}, entries : UNION { [1..n -> Alphabet] : n \in 1..MaxEntries }, fault : Faults, num : {1}, den : {2}]
        /\ pos = 0 /\ phase = "new" /\ inside = <<>> /\ outside = {} /\ tmp = FALSE /\ tables = {} /\ hist = <<>>

Room == Len(hist) < MaxOps
Say(op) == hist' = Append(hist, op)
Open == /\ phase = "new" /\ Room /\ Say("open")
        /\ IF src.fault = "missing" THEN phase' = "failed" /\ UNCHANGED tmp
           ELSE IF src.fault = "plain" THEN phase' = "failed" /\ tmp' = FALSE
           ELSE phase' = "extract" /\ tmp' = TRUE
        /\ UNCHANGED <<src, pos, inside, outside, tables>>
Fail == phase' = "failed" /\ tmp' = FALSE /\ inside' = <<>>
Extract ==
  /\ phase = "extract" /\ pos < Len(src.entries)
  /\ LET e == src.entries[pos + 1] k == Norm(e.parts).at IN
     IF src.fault \in {"cut", "limit"} /\ 2 * pos >= Len(src.entries) THEN Fail
     ELSE IF Escapes(e) THEN Fail
     ELSE /\ inside' = (IF e.t \in {"file", "meta"} THEN (k :> e) @@ inside ELSE inside)
          /\ UNCHANGED <<phase, tmp>>
  /\ pos' = pos + 1 /\ UNCHANGED <<src, outside, tables, hist>>
Scan == /\ phase = "extract" /\ pos = Len(src.entries)
        /\ LET Get(g, f) == IF <<g, f>> \in DOMAIN inside THEN <<inside[<<g, f>>]>> ELSE <<>> IN
           tables' = { [guid |-> k[1], path |-> inside[k].data[1], has |-> Get(k[1], "asset") # <<>>,
                        data |-> IF Get(k[1], "asset") = <<>> THEN <<>> ELSE Get(k[1], "asset")[1].data,
                        hasMeta |-> Get(k[1], "asset.meta") # <<>>, names |-> <<>>] : k \in { x \in DOMAIN inside : Len(x) = 2 /\ x[2] = "pathname" } }
        /\ phase' = "open" /\ UNCHANGED <<src, pos, inside, outside, tmp, hist>>
Look == phase = "open" /\ Room /\ Say("look") /\ UNCHANGED <<src, pos, phase, inside, outside, tmp, tables>>
Close == phase \in {"open", "closed"} /\ Room /\ Say("close") /\ phase' = "closed" /\ tmp' = FALSE /\ inside' = <<>>
         /\ UNCHANGED <<src, pos, outside, tables>>
Reopen == phase = "closed" /\ Room /\ Say("open") /\ phase' = "extract" /\ tmp' = TRUE /\ pos' = 0 /\ UNCHANGED <<src, inside, outside, tables>>
Next == Open \/ Extract \/ Scan \/ Look \/ Close \/ Reopen
Spec == Init /\ [][Next]_vars

NothingOutside == outside = {}
NothingLeft == phase \in {"new", "failed", "closed"} => ~tmp
RightAssets == phase = "open" => tables = Described(src)
OpensHonest == phase = "failed" => ~MustOpen(src)
Rest == phase \notin {"extract"} /\ Len(hist) >= 1 /\ (phase = "failed" \/ Len(hist) = MaxOps)
Emit == Rest => PrintT("CASE " \o ToJson([sources |-> <<src>>, hist |-> hist]))
=============================================================================
