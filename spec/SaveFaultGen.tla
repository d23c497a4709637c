--------------------------- MODULE SaveFaultGen ----------------------------
EXTENDS SaveFault, Json
CONSTANTS MaxFiles, MaxPieces, PieceSizes, BufSize

VARIABLES plan,   \* sequence of files, each a sequence of piece sizes
          fault, cur, piece, phase, buf, dev, calls, err, result

vars == <<plan, fault, cur, piece, phase, buf, dev, calls, err, result>>

(* The undisturbed run of one file: device calls made by a buffer of BufSize:*)
(* full buffers while feeding, the rest on flush.                            *)
Total(p) == SumSeq(p)
CallsOf(p) == (Total(p) + BufSize - 1) \div BufSize
Full == Map(plan, LAMBDA p : [total |-> Total(p), calls |-> CallsOf(p)])

Plans == UNION { [1..n -> UNION { [1..k -> PieceSizes] : k \in 1..MaxPieces }] : n \in 1..MaxFiles }
Faults(p) ==
  LET mx == Max({ Total(p[i]) : i \in DOMAIN p }) IN
  {[file |-> 1, kind |-> "none", at |-> 0]}
  \cup { [file |-> 1, kind |-> "limit", at |-> a] : a \in 0..(mx + 1) }
  \cup { [file |-> i, kind |-> k, at |-> 0] : i \in DOMAIN p, k \in {"create", "close"} }
  \cup UNION { { [file |-> i, kind |-> "bytes", at |-> a] : a \in 0..(Total(p[i]) + 1) } : i \in DOMAIN p }
  \cup UNION { { [file |-> i, kind |-> "call", at |-> a] : a \in 0..CallsOf(p[i]) } : i \in DOMAIN p }

Init == /\ plan \in Plans /\ fault \in Faults(plan)
        /\ cur = 1 /\ piece = 1 /\ phase = "create" /\ buf = 0 /\ dev = [i \in DOMAIN plan |-> 0]
        /\ calls = 0 /\ err = FALSE /\ result = "running"

Here == fault.file = cur
(* Device write of n bytes: how many are stored, and does it report an error.*)
Stored(n) ==
  CASE (fault.kind = "bytes" /\ Here) \/ fault.kind = "limit" -> Min2(n, Max2(0, fault.at - dev[cur]))
    [] fault.kind = "call" /\ Here /\ calls = fault.at -> 0
    [] OTHER -> n
Give(n) == LET s == Stored(n) IN
  /\ dev' = [dev EXCEPT ![cur] = @ + s]
  /\ calls' = calls + 1
  /\ err' = (err \/ s < n)

Create == /\ phase = "create"
          /\ IF fault.kind = "create" /\ Here THEN phase' = "end" /\ err' = TRUE ELSE phase' = "feed" /\ UNCHANGED err
          /\ piece' = 1 /\ buf' = 0 /\ calls' = 0 /\ UNCHANGED <<plan, fault, cur, dev, result>>
(* An error sticks: later pieces are dropped. *)
Feed == /\ phase = "feed" /\ piece <= Len(plan[cur])
        /\ IF err THEN UNCHANGED <<buf, dev, calls, err>> /\ piece' = piece + 1
           ELSE LET n == buf + plan[cur][piece] IN
                IF n < BufSize THEN buf' = n /\ UNCHANGED <<dev, calls, err>> /\ piece' = piece + 1
                ELSE Give(BufSize) /\ buf' = n - BufSize /\ piece' = piece + 1
        /\ UNCHANGED <<plan, fault, cur, phase, result>>
Drain == /\ phase = "feed" /\ piece > Len(plan[cur]) /\ ~err /\ buf > 0
         /\ Give(Min2(buf, BufSize)) /\ buf' = buf - Min2(buf, BufSize)
         /\ UNCHANGED <<plan, fault, cur, piece, phase, result>>
Close == /\ phase = "feed" /\ piece > Len(plan[cur]) /\ (err \/ buf = 0)
         /\ err' = (err \/ (fault.kind = "close" /\ Here))
         /\ phase' = "closed" /\ UNCHANGED <<plan, fault, cur, piece, buf, dev, calls, result>>
NextFile == /\ phase = "closed"
            /\ IF err \/ cur = Len(plan) THEN phase' = "end" /\ UNCHANGED cur ELSE phase' = "create" /\ cur' = cur + 1
            /\ UNCHANGED <<plan, fault, piece, buf, dev, calls, err, result>>
Return == /\ phase = "end" /\ result = "running"
          /\ result' = (IF err THEN "error" ELSE "ok")
          /\ UNCHANGED <<plan, fault, cur, piece, phase, buf, dev, calls, err>>
Next == Create \/ Feed \/ Drain \/ Close \/ NextFile \/ Return
Spec == Init /\ [][Next]_vars

Done == result # "running"
TypeOK == buf \in 0..(2 * BufSize) /\ cur \in DOMAIN plan
Reported == Done => ErrorReported(Full, fault, result = "ok")
Complete == Done => CompleteOnSuccess(Full, fault, result = "ok", dev)
NoFalseError == Done => SucceedsWithoutFault(Full, fault, result = "ok")
(* The fault's place relative to the output, for the real writers. *)
Place == LET t == IF fault.kind = "call" THEN CallsOf(plan[fault.file]) ELSE IF fault.kind = "limit" THEN Max({ Total(plan[i]) : i \in DOMAIN plan }) ELSE Total(plan[fault.file])
         IN IF fault.at >= t THEN [num |-> 1, den |-> 1, add |-> fault.at - t]
            ELSE IF fault.at = t - 1 THEN [num |-> 1, den |-> 1, add |-> -1]
            ELSE [num |-> fault.at, den |-> t, add |-> 0]
Emit == Done => PrintT("CASE " \o ToJson([kind |-> fault.kind, file |-> fault.file, place |-> Place, files |-> Len(plan)]))
=============================================================================
