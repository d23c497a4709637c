-------------------------- MODULE UnityToMqoTrace ---------------------------
EXTENDS UnityToMqo, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C13.crash." \o ev.how}
    [] ev.op = "convert" -> IF ~ev.ok THEN {"C13.failed"} ELSE UnityToMqoBroken(ev.c, ev)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == st = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ st' = st
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
