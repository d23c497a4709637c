------------------------------ MODULE RepeatTrace -------------------------------
EXTENDS Cli, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C24.crash." \o ev.how}
    [] ev.op = "repeat" -> RepeatBroken(ev)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == st = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ st' = st
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
