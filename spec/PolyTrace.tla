----------------------------- MODULE PolyTrace -----------------------------
EXTENDS Poly, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
(* Every corner keeps its texture coordinate, normal and the face's material.*)
Attrs(f) == f.uv = f.v /\ f.nrm = f.v /\ f.mat = 3
Broken ==
  CASE ev.op = "crash" -> {"C18.crash." \o ev.how}
    [] ev.op = "split" ->
         IF ~Simple(ev.poly) THEN {}
         ELSE LET t == IF ev.api = "geom" THEN ev.tris ELSE Map(ev.faces, LAMBDA f : f.v) IN
              IF ~ValidIdx(ev.poly, t) THEN {"C18.index." \o ev.api}
              ELSE Clause("C18.count." \o ev.api, CountOK(ev.poly, t))
                   \cup Clause("C18.orientation." \o ev.api, Oriented(ev.poly, t))
                   \cup Clause("C18.cover." \o ev.api, Covers(ev.poly, t))
                   \cup (IF ev.api = "mqo" THEN Clause("C18.attributes", \A i \in DOMAIN ev.faces : Attrs(ev.faces[i])) ELSE {})
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
