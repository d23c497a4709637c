--------------------------- MODULE ReadFaultGen ----------------------------
(* A reader over a file of sections, each with a count and elements.  Reads  *)
(* are byte wise; a failing read sets a sticky error that ends every loop.   *)
EXTENDS ReadFault, Json
CONSTANTS MaxSections, MaxCount, ElemSize

VARIABLES shape, open, how, at, pos, sec, left, got, err, result
vars == <<shape, open, how, at, pos, sec, left, got, err, result>>

(* Layout: per section one count byte, then count * ElemSize bytes; a closed *)
(* format also has an end mark of one byte.                                  *)
SecLen(c) == 1 + c * ElemSize
Length == SumSeq(Map(shape, SecLen)) + (IF open THEN 0 ELSE 1)
Init == /\ shape \in UNION { [1..n -> 0..MaxCount] : n \in 1..MaxSections }
        /\ open \in BOOLEAN /\ how \in {"cut", "err", "chunk"}
        /\ at \in 0..Length
        /\ pos = 0 /\ sec = 0 /\ left = 0 /\ got = <<>> /\ err = "" /\ result = "running"
(* Bytes available: everything when delivered in portions. *)
Avail(n) == how = "chunk" \/ pos + n <= at
ReadCount == /\ err = "" /\ result = "running" /\ left = 0 /\ sec < Len(shape)
             /\ IF Avail(1) THEN /\ pos' = pos + 1 /\ sec' = sec + 1 /\ left' = shape[sec + 1]
                                 /\ got' = Append(got, 0) /\ UNCHANGED err
                ELSE /\ err' = (IF how = "cut" /\ open THEN "end" ELSE "fail") /\ UNCHANGED <<pos, sec, left, got>>
             /\ UNCHANGED <<shape, open, how, at, result>>
ReadElem == /\ err = "" /\ result = "running" /\ left > 0
            /\ IF Avail(ElemSize) THEN /\ pos' = pos + ElemSize /\ left' = left - 1
                                       /\ got' = [got EXCEPT ![sec] = @ + 1] /\ UNCHANGED err
               ELSE err' = "fail" /\ UNCHANGED <<pos, left, got>>
            /\ UNCHANGED <<shape, open, how, at, result, sec>>
ReadEnd == /\ err = "" /\ result = "running" /\ left = 0 /\ sec = Len(shape)
           /\ IF open \/ Avail(1) THEN result' = "ok" /\ UNCHANGED err
              ELSE err' = "fail" /\ UNCHANGED result
           /\ UNCHANGED <<shape, open, how, at, pos, sec, left, got>>
Stop == /\ err # "" /\ result = "running"
        /\ result' = (IF err = "end" THEN "ok" ELSE "error")
        /\ UNCHANGED <<shape, open, how, at, pos, sec, left, got, err>>
Next == ReadCount \/ ReadElem \/ ReadEnd \/ Stop
Spec == Init /\ [][Next]_vars

Ends == [i \in 1..Len(shape) |-> [at |-> SumSeq(Map(SubSeq(shape, 1, i), SecLen)), digest |-> ToString(SubSeq(shape, 1, i))]]
Whole == [digest |-> ToString(shape), open |-> open, ends |-> <<[at |-> 0, digest |-> ToString(<<>>)]>> \o Ends]
Done == result # "running"
Sound == Done => Allowed(Whole, how, at, result = "ok", ToString(got))
NeverPartial == (Done /\ result = "ok" /\ ~open) => got = shape
Emit == Done => PrintT("CASE " \o ToJson([how |-> how, num |-> at, den |-> Length, open |-> open]))
=============================================================================
