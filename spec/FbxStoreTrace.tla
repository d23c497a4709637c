--------------------------- MODULE FbxStoreTrace ---------------------------
EXTENDS FbxStore, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
Broken ==
  CASE ev.op = "crash" -> {"C04.crash." \o ev.how}
    [] ev.op = "read" ->
         IF ~ev.ok THEN {"C04.read." \o file.fmt \o ".error"}
         ELSE Clause("C04.read." \o file.fmt \o ".tree", SameTree(file.fmt, file.tree, ev.tree))
              \cup Clause("C04.read." \o file.fmt \o ".graph", GraphOK(file.fmt, file.tree, ev.objs))
    [] ev.op = "write" -> Clause("C04.write.error", ev.ok)
    [] ev.op = "add" -> Clause("C04.api.id", ev.obj.id # "0" /\ ~Has(graph, ev.obj.id))
    [] ev.op = "state" -> Clause("C04.api.graph", ev.objs = graph)
    [] ev.op = "load" -> IF ~ev.ok THEN {"C04.api.load.error"} ELSE Clause("C04.api.load", ev.objs = saved)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
Effect ==
  CASE ev.op = "begin" -> file' = None /\ graph' = NewGraph /\ saved' = NewGraph
    [] ev.op = "file" -> file' = [fmt |-> ev.fmt, tree |-> ev.tree] /\ UNCHANGED <<graph, saved>>
    [] ev.op = "write" -> file' = [fmt |-> "text", tree |-> Rewritten(file.tree)] /\ UNCHANGED <<graph, saved>>
    [] ev.op = "add" -> graph' = AddObj(graph, ev.obj) /\ UNCHANGED <<file, saved>>
    [] ev.op = "connect" -> graph' = Connect(graph, ev.parent, ev.child) /\ UNCHANGED <<file, saved>>
    [] ev.op = "setprop" -> graph' = SetProp(graph, ev.id, ev.prop) /\ UNCHANGED <<file, saved>>
    [] ev.op = "save" -> saved' = graph /\ UNCHANGED <<file, graph>>
    [] OTHER -> UNCHANGED <<file, graph, saved>>
TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ Effect /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<file, graph, saved, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
