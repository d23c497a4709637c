--------------------------- MODULE MmdFileTrace ----------------------------
EXTENDS MmdFile, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Parts == {"name", "nameen", "comment", "commenten", "verts", "faces", "tex", "mats", "bones", "morphs", "bodies", "joints"}
Diff(prefix, got, want) == { prefix \o p : p \in { q \in Parts : got[q] # want[q] } }
Pid == IF file # None /\ file.origin = "tool" THEN "C01" ELSE "C02"

Broken ==
  CASE ev.op = "crash" -> {Pid \o ".crash." \o ev.how}
    [] ev.op = "write" ->
         Clause("C01.write.error", ev.ok)
         \cup Clause("C01.write.widths", Len(ev.info) = 8 /\ WidthOK(ev.info, mem))
         \* the model in memory is what the previous file held: same bytes again
         \cup Clause("C01.write.stable", (file # None /\ file.origin = "tool" /\ mem = file.content) => ev.hash = lasthash)
    [] ev.op = "read" ->
         IF ~ev.ok THEN {Pid \o ".read.error"}
         ELSE IF ev.fmt = "vmd" THEN Clause("C02.read.vmd", ev.vmd = file.content)
         ELSE Diff(Pid \o ".read.", ev.model, Meaning(file))
    [] ev.op = "big" -> Clause("C01.big.error", ev.wok /\ ev.rok) \cup Clause("C01.big.refs", ev.wrote = ev.read)
    [] ev.op = "bigfile" -> Clause("C02.big.error", ev.rok) \cup Clause("C02.big.refs", ev.rok => ev.wrote = ev.read)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
Effect ==
  CASE ev.op = "begin" -> mem' = None /\ file' = None /\ lasthash' = ""
    [] ev.op = "build" -> Build(ev.model)
    [] ev.op = "file" -> External(ev.fmt, IF ev.fmt = "pmx" THEN ev.model ELSE IF ev.fmt = "pmd" THEN ev.pmd ELSE ev.vmd)
    [] ev.op = "write" -> Write(ev.hash)
    [] ev.op = "read" -> IF ev.ok /\ ev.fmt # "vmd" THEN mem' = ev.model /\ UNCHANGED <<file, lasthash>>
                         ELSE UNCHANGED <<mem, file, lasthash>>
    [] OTHER -> UNCHANGED <<mem, file, lasthash>>
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ Effect /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<mem, file, lasthash, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
