---------------------------- MODULE MmdToMqoTrace ---------------------------
EXTENDS MmdToMqo, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C05.crash." \o ev.how}
    [] ev.op = "convert" -> ToMqoBroken(ev.p, [known |-> ev.known, threshold |-> ev.threshold], ev.doc)
       \cup Clause("C05.source", ev.p = ev.after)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == l = 1 /\ st = 0
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ UNCHANGED st
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
