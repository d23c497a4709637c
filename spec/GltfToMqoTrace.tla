--------------------------- MODULE GltfToMqoTrace ---------------------------
EXTENDS GltfToMqo, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C09.crash." \o ev.how}
    [] ev.op = "convert" -> IF ~ev.ok THEN {"C09.error"} ELSE ImportBroken(ev.g, ev.doc)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == l = 1 /\ st = 0
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ UNCHANGED st
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
