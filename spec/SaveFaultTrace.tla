-------------------------- MODULE SaveFaultTrace ---------------------------
EXTENDS SaveFault, Json, IOUtils
VARIABLES full, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
F == [file |-> ev.file, kind |-> ev.kind, at |-> ev.at]
Tag == ev.target \o "." \o ev.kind
Broken ==
  CASE ev.op = "crash" -> {"C16.crash." \o ev.how}
    [] ev.op = "full" -> Clause("C16.full." \o ev.target, ev.ok)
    [] ev.op = "save" ->
         Clause("C16.unreported." \o Tag, ErrorReported(full.files, F, ev.ok))
         \cup Clause("C16.incomplete." \o Tag, CompleteOnSuccess(full.files, F, ev.ok, ev.stored))
         \cup Clause("C16.content." \o Tag, ev.ok => ev.hash = full.hash)
         \cup Clause("C16.spurious." \o Tag, SucceedsWithoutFault(full.files, F, ev.ok))
         \cup Clause("C16.leak." \o Tag, ev.leaked <= 0)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == full = [files |-> <<>>, hash |-> ""] /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1
             /\ full' = (IF ev.op = "full" THEN [files |-> ev.files, hash |-> ev.hash] ELSE full)
TraceSpec == TraceInit /\ [][TraceNext]_<<full, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
