-------------------------- MODULE ReadFaultTrace ---------------------------
EXTENDS ReadFault, Json, IOUtils
VARIABLES whole, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C17.crash." \o ev.how}
    [] ev.op = "whole" -> Clause("C17.whole." \o ev.fmt, ev.ok)
    [] ev.op = "read" ->
         IF ev.panic THEN {"C17.panic." \o whole.fmt}
         ELSE Clause("C17." \o ev.how \o "." \o whole.fmt, Allowed(whole, ev.how, ev.at, ev.ok, ev.digest))
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
None == [fmt |-> "", digest |-> "", open |-> FALSE, ends |-> <<>>]
TraceInit == whole = None /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1
             /\ whole' = (IF ev.op = "whole" THEN [fmt |-> ev.fmt, digest |-> ev.digest, open |-> ev.open, ends |-> ev.ends] ELSE whole)
TraceSpec == TraceInit /\ [][TraceNext]_<<whole, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
