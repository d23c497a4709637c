--------------------------- MODULE MqoStoreTrace ---------------------------
(* Validates recorded executions of the real code against MqoStore.          *)
EXTENDS MqoStore, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]

Parts == {"scene", "mats", "objs", "bones", "morphs", "bodies", "joints", "limit", "poses"}
DiffDoc(prefix, got, want) == { prefix \o p : p \in { q \in Parts : got[q] # want[q] } }

(* Objects with weights are each listed exactly once in the stored file.     *)
BoneObjOK(doc) == (doc.bones # <<>> /\ \A i, j \in DOMAIN doc.objs : ObjId(doc, i) = ObjId(doc, j) => i = j) => NoDup(doc.boneobj) /\ Rng(doc.boneobj) = WeightedObjs(doc)

(* The document saved, under the names the code chose if those are allowed.  *)
SavedAs == IF NamesOk(mem.objs, ev.after.objs) /\ NamesOk(mem.mats, ev.after.mats)
           THEN [mem EXCEPT !.objs = TakeNames(@, ev.after.objs), !.mats = TakeNames(@, ev.after.mats)] ELSE Named(mem)

Broken ==
  CASE ev.op = "crash" -> {"C03.crash." \o ev.how}
    [] ev.op = "save" -> Clause("C03.save.error", ev.ok)
                         \cup DiffDoc("C03.save.changed.", ev.after, SavedAs)
    [] ev.op = "load" -> IF ~ev.ok THEN {"C03.load.error"}
                         ELSE DiffDoc("C03.load.", ev.doc, disk[ev.fmt])
                              \cup Clause("C03.load.boneobj", BoneObjOK(ev.doc))
    [] OTHER -> {}

Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))

Effect ==
  CASE ev.op = "doc" -> mem' = ev.doc /\ UNCHANGED disk
    [] ev.op = "add" -> Add(ev.what, ev.val)
    [] ev.op = "save" -> SaveAs(ev.fmt, SavedAs)
    [] ev.op = "load" -> IF ev.ok /\ ev.doc # disk[ev.fmt]
                         THEN mem' = ev.doc /\ UNCHANGED disk   \* resynchronise
                         ELSE IF ev.ok THEN Load(ev.fmt) ELSE UNCHANGED <<mem, disk>>
    [] ev.op = "begin" -> mem' = EmptyDoc /\ disk' = [f \in Formats |-> None]
    [] OTHER -> UNCHANGED <<mem, disk>>

TraceInit == Init /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ Effect /\ l' = l + 1 /\ UNCHANGED hist
TraceSpec == TraceInit /\ [][TraceNext]_<<mem, disk, hist, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
