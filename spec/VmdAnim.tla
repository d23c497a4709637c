------------------------------ MODULE VmdAnim -------------------------------
(* A motion file played on a glTF model: one linear track per moved part.     *)
(*                                                                            *)
(* motion  bones  [t, frame, pos, rot]   thousandths of an MMD unit, of 1     *)
(*         morphs [t, frame, val]        thousandths                          *)
(* model   nodes  [bone, rest, mesh]     bone name or "", 1/100000 m, 0: none *)
(*         meshes [names, n]             expression names, number of targets  *)
(* tracks  [node, path, mode, keys, vals, mm]   keys in milliseconds          *)
EXTENDS Common

Frames(keys, t) == { keys[i].frame : i \in { j \in DOMAIN keys : keys[j].t = t } }
Ordered(F) == SetToSortSeq(F, LAMBDA a, b : a < b)
At(keys, t, f) == { keys[i] : i \in { j \in DOMAIN keys : keys[j].t = t /\ keys[j].frame = f } }
Ms(f) == (f * 100 + 1) \div 3

(* ---- bones ------------------------------------------------------------------- *)
(* The glTF space is 0.08 m per MMD unit and looks the other way along z.         *)
(* A model turned half around the upright axis is moved the other way round.        *)
Side(c) == IF c.flip THEN -1 ELSE 1
TransOf(c, rest, k) == << rest[1] + 8 * Side(c) * k.pos[1], rest[2] + 8 * k.pos[2], rest[3] - 8 * Side(c) * k.pos[3] >>
RotOf(c, k) == << -Side(c) * k.rot[1], -k.rot[2], Side(c) * k.rot[3], k.rot[4] >>
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
SameRot(a, b) == NearV(a, b, 2) \/ NearV(a, [i \in DOMAIN b |-> -b[i]], 2)
Moves(keys, t) == \E f \in Frames(keys, t) : \A k \in At(keys, t, f) : k.pos # <<0, 0, 0>>
Turns(keys, t) == \E f \in Frames(keys, t) : \A k \in At(keys, t, f) : SubSeq(k.rot, 1, 3) # <<0, 0, 0>>

(* ---- expressions -------------------------------------------------------------- *)
(* The value of an expression at a frame: the line through its keys (the values    *)
(* of one frame given twice are both possible).                                    *)
Values(keys, t, f) == { k.val : k \in At(keys, t, f) }
Blend(a, b, n, d) == IF d = 0 THEN a ELSE a + ((b - a) * n) \div d
Weight(keys, t, f) ==
  LET F == Frames(keys, t)
      B == { g \in F : g <= f }
      A == { g \in F : g >= f } IN
  IF B = {} THEN Values(keys, t, Min(A))
  ELSE IF A = {} THEN Values(keys, t, Max(B))
  ELSE { Blend(a, b, f - Max(B), Min(A) - Max(B)) : a \in Values(keys, t, Max(B)), b \in Values(keys, t, Min(A)) }
Driven(keys, mesh) == { i \in 1..Min2(mesh.n, Len(mesh.names)) : Frames(keys, mesh.names[i]) # {} }
MeshFrames(keys, mesh) == UNION { Frames(keys, mesh.names[i]) : i \in Driven(keys, mesh) }

(* ---- what the model has to show ------------------------------------------------ *)
(* Tracks: << node, path >> that must be there, and those that may.                *)
BoneNodes(c) == { n \in DOMAIN c.nodes : c.nodes[n].bone # "" /\ Frames(c.motion.bones, c.nodes[n].bone) # {} }
Must(c) ==
       { << n, "translation" >> : n \in { x \in BoneNodes(c) : Moves(c.motion.bones, c.nodes[x].bone) } }
  \cup { << n, "rotation" >> : n \in { x \in BoneNodes(c) : Turns(c.motion.bones, c.nodes[x].bone) } }
  \cup { << n, "weights" >> : n \in { x \in DOMAIN c.nodes : c.nodes[x].mesh > 0 /\ Driven(c.motion.morphs, c.meshes[c.nodes[x].mesh]) # {} } }
May(c) == Must(c) \cup { << n, p >> : n \in BoneNodes(c), p \in {"translation", "rotation"} }

KeysOk(a, F) == LET o == Ordered(F) IN Len(a.keys) = Len(o) /\ \A i \in DOMAIN o : Near(a.keys[i], Ms(o[i]), 1)
Rising(a) == \A i \in 1..(Len(a.keys) - 1) : a.keys[i] < a.keys[i + 1]
Bounds(a) == a.keys # <<>> => a.mm = << << a.keys[1] >>, << a.keys[Len(a.keys)] >> >>

TransOk(c, a) == LET nd == c.nodes[a.node] o == Ordered(Frames(c.motion.bones, nd.bone)) IN
  Len(a.vals) = Len(o) /\ \A i \in DOMAIN o : \E k \in At(c.motion.bones, nd.bone, o[i]) : NearV(a.vals[i], TransOf(c, nd.rest, k), 4)
RotOk(c, a) == LET nd == c.nodes[a.node] o == Ordered(Frames(c.motion.bones, nd.bone)) IN
  Len(a.vals) = Len(o) /\ \A i \in DOMAIN o : \E k \in At(c.motion.bones, nd.bone, o[i]) : SameRot(a.vals[i], RotOf(c, k))
WeightsOk(c, a) ==
  LET m == c.meshes[c.nodes[a.node].mesh] K == c.motion.morphs D == Driven(K, m) o == Ordered(MeshFrames(K, m)) IN
  /\ Len(a.vals) = Len(o) * m.n
  /\ \A i \in DOMAIN o : \A t \in 1..m.n :
       LET v == a.vals[(i - 1) * m.n + t][1] IN
       IF t \in D THEN \E w \in Weight(K, m.names[t], o[i]) : Near(v, w, 5) ELSE v = 0

VmdBroken(e) ==
  LET c == e.case0 A == e.anims
      Tr == { << A[i].node, A[i].path >> : i \in DOMAIN A }
      Known == { i \in DOMAIN A : << A[i].node, A[i].path >> \in May(c) }
  IN
  IF ~e.ok THEN {"C15.refused"} ELSE
     Clause("C15.refs", e.refs = <<>> /\ \A i \in DOMAIN A : A[i].node \in DOMAIN c.nodes)
  \cup Clause("C15.one", e.count = IF A = <<>> THEN 0 ELSE 1)
  \cup Clause("C15.twice", Cardinality(Tr) = Len(A))
  \cup Clause("C15.missing", Must(c) \subseteq Tr)
  \cup Clause("C15.extra", Tr \subseteq May(c))
  \cup Clause("C15.rising", \A i \in DOMAIN A : Rising(A[i]))
  \cup Clause("C15.bounds", \A i \in DOMAIN A : Bounds(A[i]))
  \cup Clause("C15.mode", \A i \in DOMAIN A : A[i].mode = "LINEAR")
  \cup Clause("C15.keys", \A i \in Known : KeysOk(A[i], IF A[i].path = "weights" THEN MeshFrames(c.motion.morphs, c.meshes[c.nodes[A[i].node].mesh]) ELSE Frames(c.motion.bones, c.nodes[A[i].node].bone)))
  \cup Clause("C15.translation", \A i \in Known : A[i].path = "translation" => TransOk(c, A[i]))
  \cup Clause("C15.rotation", \A i \in Known : A[i].path = "rotation" => RotOk(c, A[i]))
  \cup Clause("C15.weights", \A i \in Known : A[i].path = "weights" => WeightsOk(c, A[i]))
  \cup Clause("C15.model", e.same)
=============================================================================
