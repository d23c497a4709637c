-------------------------- MODULE UnityAssetsTrace --------------------------
EXTENDS UnityAssets, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
(* st: the sources of the case and, per session, its source and phase. *)
OpenArchives(s) == Cardinality({ n \in DOMAIN s.sess : s.sess[n].phase = "open" /\ s.sources[s.sess[n].s].kind = "package" })
Src(n) == st.sources[st.sess[n].s]
After ==
  CASE ev.op = "begin" -> [sources |-> <<>>, sess |-> <<>>]
    [] ev.op = "sources" -> [sources |-> ev.sources, sess |-> <<>>]
    [] ev.op = "open" -> [st EXCEPT !.sess = Append(@, [s |-> ev.s, phase |-> IF ev.ok THEN "open" ELSE "failed"])]
    [] ev.op = "close" -> [st EXCEPT !.sess[ev.n].phase = "closed"]
    [] OTHER -> st
Disk == Clause("C11.outside", ev.stray = <<>>) \cup Clause("C11.leftover", ev.tmp <= OpenArchives(After))
Closed(k) == k \in {"package", "dir"}
Broken ==
  CASE ev.op = "crash" -> {"C11.crash." \o ev.how}
    [] ev.op = "open" ->
         LET src == st.sources[ev.s] IN
         Disk \cup Clause("C11.open", MustOpen(src) => ev.ok) \cup Clause("C11.accepted", MustFail(src) => ~ev.ok)
    [] ev.op = "close" -> Disk \cup Clause("C11.close", ev.ok)
    [] ev.op = "look" ->
         LET a == Described(Src(ev.n)) IN
         Disk \cup Clause("C11.guid", \A r \in Rng(ev.guids) : GuidRight(a, r))
              \cup Clause("C11.path", \A r \in Rng(ev.paths) : PathRight(a, r))
              \cup Clause("C11.content", \A r \in Rng(ev.paths) : ContentRight(a, r, Closed(Src(ev.n).kind)))
              \cup Clause("C11.all", AllRight(a, ev.all))
              \cup Clause("C11.source", ev.source)
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == st = [sources |-> <<>>, sess |-> <<>>] /\ l = 1
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ st' = After
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
