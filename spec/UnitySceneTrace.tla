-------------------------- MODULE UnitySceneTrace ---------------------------
EXTENDS UnityScene, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
FilesOf(s) == [g \in { s[i].g : i \in DOMAIN s } |-> s[CHOOSE i \in DOMAIN s : s[i].g = g].items]
Broken ==
  CASE ev.op = "crash" -> {"C12.crash." \o ev.how}
    [] ev.op = "load" -> IF ~ev.ok THEN {"C12.failed"} ELSE SceneBroken(FilesOf(st), ev.g, ev.tree)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == st = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ st' = (IF ev.op = "files" THEN ev.files ELSE st)
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
