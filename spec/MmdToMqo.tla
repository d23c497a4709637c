------------------------------ MODULE MmdToMqo ------------------------------
(* C05.  What an MMD model draws, and what its MQO document must draw.       *)
EXTENDS Soup

(* ---- the source --------------------------------------------------------- *)
(* Material (0-based) of face f: materials own consecutive runs of faces. *)
RECURSIVE MatOfFrom(_, _, _)
MatOfFrom(mats, i, f) == IF i > Len(mats) THEN -1 ELSE IF 3 * f <= mats[i].count THEN i - 1 ELSE MatOfFrom(mats, i + 1, f - mats[i].count \div 3)
MatOf(p, f) == MatOfFrom(p.mats, 1, f)
BoneOk(p, b) == b >= 0 /\ b < Len(p.bones)
PWeights(p, v) == SumBy(Flat([k \in DOMAIN v.bones |-> IF k <= Len(v.w) /\ v.w[k] > 0 /\ BoneOk(p, v.bones[k]) THEN <<<<v.bones[k] + 1, v.w[k]>>>> ELSE <<>>]))
(* Displacement of vertex v (0-based) by a morph. *)
PShift(m, v) == FoldLeft(LAMBDA a, x : IF x[1] = v THEN Add3(a, <<x[2], x[3], -x[4]>>) ELSE a, <<0, 0, 0>>, m.vertex)
PUvShift(m, v) == IF m.type # 3 THEN <<0, 0>> ELSE FoldLeft(LAMBDA a, x : IF x[1] = v THEN Add3(a, <<x[2], x[3]>>) ELSE a, <<0, 0>>, m.uv)
PMoves(p, v) == { m \in { <<p.morphs[i].name, PShift(p.morphs[i], v), PUvShift(p.morphs[i], v)>> : i \in DOMAIN p.morphs } : ~Zero(m[2]) \/ ~Zero(m[3]) }
PCorner(p, v) == LET x == p.verts[v + 1] IN [p |-> MirrorZ(x.pos), uv |-> x.uv, n |-> MirrorZ(x.nrm), w |-> PWeights(p, x), d |-> PMoves(p, v)]
PSoup(p) == LET C == [v \in 0..(Len(p.verts) - 1) |-> PCorner(p, v)] IN
  [f \in DOMAIN p.faces |-> <<MatOf(p, f), [k \in 1..3 |-> C[p.faces[f][k]]]>>]

(* ---- the rest of the document ------------------------------------------- *)
DoubleSided == 1
BitOn(n, b) == (n \div b) % 2 = 1
TexOf(p, i) == IF i >= 0 /\ i < Len(p.tex) THEN p.tex[i + 1] ELSE ""
MatSame(p, a, b) == b.name = a.name /\ b.col = a.col /\ b.pow = a.specp /\ b.dbl = BitOn(a.flags, DoubleSided) /\ b.tex = TexOf(p, a.tex) /\ b.edge = (IF a.edge > 0 THEN 1 ELSE 0)
(* Material morphs become extra materials with the resulting colour. *)
MorphMats(p) == Flat([i \in DOMAIN p.morphs |-> Flat([k \in DOMAIN p.morphs[i].mat |->
   LET q == p.morphs[i].mat[k] IN IF q.t < 0 \/ q.t >= Len(p.mats) THEN <<>> ELSE
   LET m == p.mats[q.t + 1] IN
   <<<<"$MORPH:" \o p.morphs[i].name \o ":" \o m.name,
       [j \in 1..4 |-> IF BitOn(q.flags, 1) THEN m.col[j] + q.v[j] ELSE (m.col[j] * q.v[j]) \div 1000], TexOf(p, m.tex)>>>>])])
InheritRot == 256
ParentOf(p, o, b) ==
  LET i == b.inh IN
  IF BitOn(b.flags, InheritRot) /\ b.inhw > o.threshold /\ BoneOk(p, i) /\ p.bones[i + 1].name \in Rng(o.known) THEN i + 1
  ELSE IF BoneOk(p, b.parent) THEN b.parent + 1 ELSE 0
IkSame(p, m) == \A t \in DOMAIN p.bones :
  LET S == { i \in DOMAIN p.bones : Len(p.bones[i].ik.links) > 0 /\ p.bones[i].ik.target = t - 1 } IN
  IF S = {} THEN m.bones[t].ik = <<>>
  ELSE Len(m.bones[t].ik) = 1 /\ \E i \in S : m.bones[t].ik[1].chain = Len(p.bones[i].ik.links) + 1 /\ m.bones[t].ik[1].name = p.bones[i].name
BoneSame(p, o, i, b) == LET a == p.bones[i] IN
  b.id = i /\ b.name = a.name /\ b.pos = MirrorZ(a.pos) /\ b.group = a.layer /\ b.mov = (IF BitOn(a.flags, 4) THEN 1 ELSE 0) /\ b.parent = ParentOf(p, o, a)
ShapeName(s) == CASE s = 0 -> "SPHERE" [] s = 1 -> "BOX" [] s = 2 -> "CAPSULE" [] OTHER -> ""
BodySame(p, a, b) ==
  /\ b.name = a.name /\ Len(b.shapes) = 1
  /\ b.shapes[1] = [type |-> ShapeName(a.shape), size |-> a.size, pos |-> MirrorZ(a.pos), rot |-> a.rot]
  /\ b.mass = a.mass /\ b.kin = (a.mode = 0) /\ b.group = a.group /\ b.mask = a.mask /\ b.ld = a.ld /\ b.ad = a.ad /\ b.rest = a.rest /\ b.fric = a.fric
  /\ b.bone = (IF BoneOk(p, a.bone) THEN a.bone + 1 ELSE 0)
JointSame(a, b) == b.name = a.name /\ b.b1 = a.b1 + 1 /\ b.b2 = a.b2 + 1 /\ b.v = <<MirrorZ(a.v[1]), a.v[2], a.v[7], a.v[8]>>

ToMqoBroken(p, o, m) ==
  Clause("C05.valid", MqoValid(m))
  \cup (IF ~MqoValid(m) THEN {} ELSE PartsBroken("C05", PSoup(p), MqoSoup(m)))
  \cup Clause("C05.materials", LET X == MorphMats(p) n == Len(p.mats) IN
       /\ Len(m.mats) = n + Len(X)
       /\ \A i \in 1..n : MatSame(p, p.mats[i], m.mats[i])
       /\ \A i \in DOMAIN X : <<m.mats[n + i].name, m.mats[n + i].col, m.mats[n + i].tex>> = X[i])
  \cup Clause("C05.bones", Len(m.bones) = Len(p.bones) /\ \A i \in DOMAIN p.bones : BoneSame(p, o, i, m.bones[i]))
  \cup Clause("C05.ik", Len(m.bones) = Len(p.bones) => IkSame(p, m))
  \cup Clause("C05.bodies", Len(m.bodies) = Len(p.bodies) /\ \A i \in DOMAIN p.bodies : BodySame(p, p.bodies[i], m.bodies[i]))
  \cup Clause("C05.joints", p.bodies = <<>> \/ (Len(m.joints) = Len(p.joints) /\ \A i \in DOMAIN p.joints : JointSame(p.joints[i], m.joints[i])))
  \* every morph that moves something drawn can be found by its name
  \cup Clause("C05.morphnames", \A i \in DOMAIN p.morphs :
       (\E f \in DOMAIN p.faces : \E k \in 1..3 : LET v == p.faces[f][k] IN ~Zero(PShift(p.morphs[i], v)) \/ ~Zero(PUvShift(p.morphs[i], v)))
          => IsTarget(m, p.morphs[i].name))

(* ---- the design of the converter ---------------------------------------- *)
(* Faces sharing vertices form groups, morphs sharing groups form sets; each *)
(* set of morphs gets one base object holding all faces it touches.          *)
RECURSIVE Grow(_, _)
Grow(S, N) == LET T == S \cup UNION { N[x] : x \in S } IN IF T = S THEN S ELSE Grow(T, N)
Touch(p, f) == { g \in DOMAIN p.faces : Rng(p.faces[f]) \cap Rng(p.faces[g]) # {} }
FaceGroup(p, f) == Grow({f}, [x \in DOMAIN p.faces |-> Touch(p, x)])
MovedVerts(m) == { m.vertex[k][1] : k \in DOMAIN m.vertex } \cup (IF m.type = 3 THEN { m.uv[k][1] : k \in DOMAIN m.uv } ELSE {})
FacesOf(p, i) == UNION { FaceGroup(p, f) : f \in { f \in DOMAIN p.faces : Rng(p.faces[f]) \cap MovedVerts(p.morphs[i]) # {} } }
MorphSetOf(p, i) == Grow({i}, [x \in DOMAIN p.morphs |-> { j \in DOMAIN p.morphs : FacesOf(p, x) \cap FacesOf(p, j) # {} }])
MorphSets(p) == { MorphSetOf(p, i) : i \in { i \in DOMAIN p.morphs : FacesOf(p, i) # {} } }
Asc(S) == SetToSortSeq(S, <)
(* One object of the faces F: its own vertex list, in order of first use. *)
Verts(p, F) == LET all == Flat([k \in DOMAIN F |-> p.faces[F[k]]]) IN
  FoldLeft(LAMBDA a, v : IF v \in Rng(a) THEN a ELSE Append(a, v), <<>>, all)
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
MkObj(p, name, F, vis, m) ==
  LET V == Verts(p, F) IN
  [name |-> name, vis |-> vis, vids |-> <<>>, src |-> V,
   verts |-> [i \in DOMAIN V |-> Add3(MirrorZ(p.verts[V[i] + 1].pos), IF m = 0 THEN <<0, 0, 0>> ELSE PShift(p.morphs[m], V[i]))],
   faces |-> [k \in DOMAIN F |-> [m |-> MatOf(p, F[k]), v |-> [j \in 1..3 |-> Pos(V, p.faces[F[k]][j])],
      uv |-> [j \in 1..3 |-> Add3(p.verts[p.faces[F[k]][j] + 1].uv, IF m = 0 THEN <<0, 0>> ELSE PUvShift(p.morphs[m], p.faces[F[k]][j]))],
      n |-> [j \in 1..3 |-> MirrorZ(p.verts[p.faces[F[k]][j] + 1].nrm)]]]]
Design(p) ==
  LET sets == SetToSeq(MorphSets(p))
      inSet == UNION { UNION { FacesOf(p, i) : i \in S } : S \in Rng(sets) }
      plain == [i \in DOMAIN p.mats |-> MkObj(p, "M_" \o p.mats[i].name, Asc({ f \in DOMAIN p.faces \ inSet : MatOf(p, f) = i - 1 }), TRUE, 0)]
      base == [k \in DOMAIN sets |-> LET F == Asc(UNION { FacesOf(p, i) : i \in sets[k] }) ms == Asc(sets[k]) IN
                 <<MkObj(p, "MorphBase" \o ToString(k), F, TRUE, 0)>> \o [j \in DOMAIN ms |-> MkObj(p, p.morphs[ms[j]].name, F, FALSE, ms[j])]]
      raw == plain \o Flat(base)
      objs == [i \in DOMAIN raw |-> [name |-> raw[i].name, vis |-> raw[i].vis, vids |-> <<>>, verts |-> raw[i].verts, faces |-> raw[i].faces, uid |-> i]] IN
  [objs |-> objs,
   mats |-> p.mats,
   bones |-> [b \in DOMAIN p.bones |-> [id |-> b, parent |-> 0,
      w |-> Flat([i \in DOMAIN raw |-> IF ~raw[i].vis THEN <<>> ELSE Flat([k \in DOMAIN raw[i].src |->
             LET W == { x \in PWeights(p, p.verts[raw[i].src[k] + 1]) : x[1] = b } IN
             IF W = {} THEN <<>> ELSE <<<<i, k, (CHOOSE x \in W : TRUE)[2]>>>>])])]],
   morphs |-> [k \in DOMAIN sets |-> [base |-> "MorphBase" \o ToString(k), targets |-> [j \in 1..Cardinality(sets[k]) |-> p.morphs[Asc(sets[k])[j]].name]]]]
DesignOk(p) == LET m == Design(p) IN MqoValid(m) /\ PartsBroken("C05", PSoup(p), MqoSoup(m)) = {}
=============================================================================
