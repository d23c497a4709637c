---------------------------- MODULE MqoEditTrace ---------------------------
EXTENDS MqoEdit, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
ev == Trace[l]
FaceSame(pre, post, o, f) == \A i \in DOMAIN pre.objs : \A k \in DOMAIN pre.objs[i].faces : <<i, k>> # <<o, f>> => post.objs[i].faces[k] = pre.objs[i].faces[k]
Others(pre, post, o) == \A i \in DOMAIN pre.objs : i # o => post.objs[i] = pre.objs[i]
Rest(pre, post) == pre.bones = post.bones /\ pre.bodies = post.bodies /\ pre.joints = post.joints /\ pre.mats = post.mats /\ pre.morphs = post.morphs
Names(s) == [i \in DOMAIN s |-> s[i].name]
Uids(s) == [i \in DOMAIN s |-> s[i].uid]
(* The straightening rotation about Z, for child directions in the lattice of 3-4-5. *)
Adjust(pre, post, b) ==
  LET C == Child(pre.bones, b)
      V(k) == [i \in 1..3 |-> (pre.bones[k].pos[i] - pre.bones[b].pos[i]) \div 100]
      Far == { k \in C : \A j \in C : Len2(V(k)) >= Len2(V(j)) } IN
  IF C = {} \/ (\A k \in C : Len2(V(k)) = 0) THEN Clause("C20.adjust.none", pre = post)
  ELSE IF Cardinality(Far) # 1 THEN {} ELSE
  LET k == CHOOSE k \in Far : TRUE
      d == [i \in 1..3 |-> post.bones[k].pos[i] - post.bones[b].pos[i]]
      x == V(k)[1] y == V(k)[2] IN
  Clause("C20.adjust.base", CloseV(post.bones[b].pos, pre.bones[b].pos, 3))
  \cup Clause("C20.adjust.level", Near(d[2], 0, 6) /\ Near(d[3], 100 * V(k)[3], 10))
  \cup Clause("C20.adjust.side", (x > 0 => d[1] > 0) /\ (x < 0 => d[1] < 0))
  \* when the direction is exactly 3-4-5 the whole pose is known
  \cup (IF x = 0 \/ (\E i \in 1..3 : V(k)[i] * 100 # pre.bones[k].pos[i] - pre.bones[b].pos[i]) \/ ~\E u \in 1..200 : u * u = x * x + y * y THEN {} ELSE
        LET u == CHOOSE u \in 1..200 : u * u = x * x + y * y
            A == { a \in 1..12 : S5(a) * u = -5 * y * SignOf(x) /\ C5(a) * u = 5 * Abs(x) } IN
        IF A = {} THEN {} ELSE PoseBroken(pre, post, b, RotZ(CHOOSE a \in A : TRUE), 3))
Broken ==
  CASE ev.op = "crash" -> {"C20.crash." \o ev.how, "C21.crash." \o ev.how}
    [] ev.op = "load" ->
       Clause("C20.local", \A i \in DOMAIN ev.gens : LET T == TRS(ev.gens[i]) IN
          /\ \A a, b \in 1..3 : Near(ev.doc.objs[i].loc.r[a][b], 8 * T.r[a][b], 3)
          /\ \A a \in 1..3 : Near(ev.doc.objs[i].loc.t[a], 8 * T.t[a], 3))
       \cup Clause("C20.world", WorldOk(ev.doc))
    [] ev.op = "setlocal" -> Clause("C20.setlocal", CloseT(ev.doc.objs[ev.obj].loc, ev.want, 3)) \cup Clause("C20.world", WorldOk(ev.doc))
       \cup Clause("C20.setlocal.others", Others(st, ev.doc, ev.obj) /\ Rest(st, ev.doc))
    [] ev.op = "transform" -> TransformBroken(st, ev.doc, ev.g, ev.m) \cup Clause("C20.world", WorldOk(ev.doc))
    [] ev.op = "pose" -> PoseBroken(st, ev.doc, ev.bone, Turn(ev.axis, ev.ang), ev.axis)
       \cup Clause("C20.pose.told", Rng(ev.told) = Below(st.bones, {ev.bone}) /\ NoDup(ev.told))
    [] ev.op = "adjust" -> Adjust(st, ev.doc, ev.bone)
    [] ev.op = "fixnames" ->
       NamesBroken("objects", Names(st.objs), Names(ev.doc.objs)) \cup NamesBroken("materials", Names(st.mats), Names(ev.doc.mats))
       \cup Clause("C21.names.rest", Uids(st.objs) = Uids(ev.doc.objs) /\ st.bones = ev.doc.bones /\ st.morphs = ev.doc.morphs)
    [] ev.op = "fixids" -> IdsBroken(Uids(st.objs), Uids(ev.doc.objs))
       \cup Clause("C21.ids.rest", Names(st.objs) = Names(ev.doc.objs) /\ Rest(st, ev.doc))
    [] ev.op = "clone" -> Clause("C21.clone.equal", ev.equal) \cup Clause("C21.clone.original", ev.origkept /\ ev.doc = st) \cup Clause("C21.clone.copy", ev.copykept)
    [] ev.op = "morph" -> MorphBroken(st, ev.doc, ev.name, ev.val, ev.ret)
    [] ev.op = "flip" -> FlipBroken(st.objs[ev.obj].faces[ev.face], ev.doc.objs[ev.obj].faces[ev.face])
       \cup Clause("C21.flip.others", FaceSame(st, ev.doc, ev.obj, ev.face) /\ Rest(st, ev.doc))
    [] ev.op = "tri" -> TriBroken(st.objs[ev.obj].faces, ev.doc.objs[ev.obj].faces)
       \cup Clause("C21.split.others", Others(st, ev.doc, ev.obj) /\ Rest(st, ev.doc) /\ st.objs[ev.obj].verts = ev.doc.objs[ev.obj].verts)
    [] ev.op = "normals" -> NormalsBroken(st.objs[ev.obj], ev.doc.objs[ev.obj])
       \cup Clause("C21.normals.others", Others(st, ev.doc, ev.obj) /\ Rest(st, ev.doc))
    [] ev.op = "find" -> Clause("C21.find.vertex", ev.got = FindVertex(st.objs[ev.obj], ev.uid))
       \cup Clause("C21.find.object", ev.gotobj = ObjOfUid(st, ev.uid))
    [] OTHER -> {}
Report == LET b == Broken IN
  IF b = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, id |-> ev.case, step |-> ev.step, clauses |-> b]))
TraceInit == l = 1 /\ st = <<>>
TraceNext == l <= Len(Trace) /\ Report /\ l' = l + 1 /\ st' = (IF ev.op \in {"begin", "crash", "find"} THEN st ELSE ev.doc)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
