--------------------------- MODULE GltfEditTrace ----------------------------
EXTENDS GltfEdit, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C23.crash." \o ev.how}
    [] ev.op \in {"begin", "open"} -> {}
    [] ev.op = "save" /\ ~ev.ok -> {"C23.save"}
    [] OTHER -> EditBroken(ev, st, ev.g)
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == l = 1 /\ st = 0
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ st' = IF "g" \in DOMAIN ev THEN ev.g ELSE st
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
