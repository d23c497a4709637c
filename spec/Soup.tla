-------------------------------- MODULE Soup --------------------------------
(* The drawn surface of a model, independent of file format: a bag of faces, *)
(* each a material and a loop of corners; a corner has a place, a texture    *)
(* coordinate, a normal, the bones that pull it and the morphs that move it. *)
(* Every conversion property says that this surface is kept.  Coordinates    *)
(* are integers (1/1000), bone weights are in tenths of a percent.           *)
EXTENDS Common

Sub3(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Add3(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
MirrorZ(v) == <<v[1], v[2], -v[3]>>
Zero(v) == \A i \in DOMAIN v : v[i] = 0

(* Loops are the same up to where they start. *)
RotBy(s, k) == [i \in DOMAIN s |-> s[((i + k - 1) % Len(s)) + 1]]
SameLoop(a, b) == Len(a) = Len(b) /\ (a = b \/ \E k \in 1..(Len(a) - 1) : RotBy(a, k) = b)
(* Faces <<material, loop>>. *)
SameFace(x, y) == x[1] = y[1] /\ SameLoop(x[2], y[2])
BagEq(A, B, Eq(_, _)) ==
  /\ Len(A) = Len(B)
  /\ A = B \/ \A i \in DOMAIN A :
       Cardinality({ j \in DOMAIN A : Eq(A[i], A[j]) }) = Cardinality({ j \in DOMAIN B : Eq(A[i], B[j]) })
SameSoup(A, B) == BagEq(A, B, SameFace)
(* The same surface looked at through one aspect of its corners. *)
Look(A, Op(_)) == [i \in DOMAIN A |-> <<A[i][1], [k \in DOMAIN A[i][2] |-> Op(A[i][2][k])]>>]
PartsBroken(id, A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN
  IF SameSoup(A, B) THEN {} ELSE
  IF ~SameSoup(Look(A, LAMBDA c : c.p), Look(B, LAMBDA c : c.p)) THEN {id \o ".faces"} ELSE
  Clause(id \o ".uv", SameSoup(Look(A, LAMBDA c : <<c.p, c.uv>>), Look(B, LAMBDA c : <<c.p, c.uv>>)))
  \cup Clause(id \o ".normals", SameSoup(Look(A, LAMBDA c : <<c.p, c.n>>), Look(B, LAMBDA c : <<c.p, c.n>>)))
  \cup Clause(id \o ".weights", SameSoup(Look(A, LAMBDA c : <<c.p, c.w>>), Look(B, LAMBDA c : <<c.p, c.w>>)))
  \cup Clause(id \o ".morphs", SameSoup(Look(A, LAMBDA c : <<c.p, c.d>>), Look(B, LAMBDA c : <<c.p, c.d>>)))
  \cup Clause(id \o ".whole", SameSoup(A, B))

(* ---- the same surface cut into triangles --------------------------------- *)
(* Triangles T cover the faces F when, per material, the directed corner      *)
(* edges left after cancelling opposite ones are those of the faces, there    *)
(* are n - 2 triangles per polygon, and the areas add up.                     *)
SideEdges(F) == Flat([i \in DOMAIN F |-> [k \in DOMAIN F[i][2] |-> <<F[i][1], F[i][2][k], F[i][2][(k % Len(F[i][2])) + 1]>>]])
BackEdge(e) == <<e[1], e[3], e[2]>>
NetCount(E, e) == Cardinality({ i \in DOMAIN E : E[i] = e }) - Cardinality({ i \in DOMAIN E : E[i] = BackEdge(e) })
SameRim(F, T) == LET A == SideEdges(F) B == SideEdges(T) IN
  \A e \in Rng(A) \cup Rng(B) : e[2] = e[3] \/ NetCount(A, e) = NetCount(B, e)
CrossOf(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* Twice the area of a loop of places (exact for triangles and for polygons  *)
(* in axis planes), in units of u thousandths. *)
AreaOf(L, u) ==
  LET P == [k \in DOMAIN L |-> [i \in 1..3 |-> (L[k][i] - L[1][i]) \div u]]
      c == FoldLeft(LAMBDA a, k : Add3(a, CrossOf(P[k], P[k + 1])), <<0, 0, 0>>, [k \in 1..(Len(L) - 1) |-> k]) IN
  Abs(c[1]) + Abs(c[2]) + Abs(c[3])
AreaSum(F, m, u) == SumSeq([i \in DOMAIN F |-> IF F[i][1] = m THEN AreaOf(F[i][2], u) ELSE 0])
PiecesSum(F, m) == SumSeq([i \in DOMAIN F |-> IF F[i][1] = m THEN Len(F[i][2]) - 2 ELSE 0])
CoverBroken(id, F, T, u) ==
  LET FP == Look(F, LAMBDA c : c.p) TP == Look(T, LAMBDA c : c.p) IN
  IF SameRim(F, T) /\ \A m \in { F[i][1] : i \in DOMAIN F } \cup { T[i][1] : i \in DOMAIN T } :
        PiecesSum(F, m) = PiecesSum(T, m) /\ AreaSum(FP, m, u) = AreaSum(TP, m, u) THEN {}
  ELSE LET b == Clause(id \o ".faces", SameRim(FP, TP))
        \cup Clause(id \o ".count", \A m \in { F[i][1] : i \in DOMAIN F } \cup { T[i][1] : i \in DOMAIN T } : PiecesSum(F, m) = PiecesSum(T, m))
        \cup Clause(id \o ".area", \A m \in { F[i][1] : i \in DOMAIN F } : AreaSum(FP, m, u) = AreaSum(TP, m, u))
        \cup Clause(id \o ".uv", SameRim(Look(F, LAMBDA c : <<c.p, c.uv>>), Look(T, LAMBDA c : <<c.p, c.uv>>)))
        \cup Clause(id \o ".weights", SameRim(Look(F, LAMBDA c : <<c.p, c.w>>), Look(T, LAMBDA c : <<c.p, c.w>>)))
        \cup Clause(id \o ".morphs", SameRim(Look(F, LAMBDA c : <<c.p, c.d>>), Look(T, LAMBDA c : <<c.p, c.d>>))) IN
       IF b = {} THEN {id \o ".whole"} ELSE b

(* Sums per key of a sequence of <<key, number>>, as a set without zeros. *)
SumBy(s) == { <<k, SumSeq([i \in DOMAIN s |-> IF s[i][1] = k THEN s[i][2] ELSE 0])>> : k \in { s[i][1] : i \in DOMAIN s } }

(* ---- the surface of an MQO document ------------------------------------- *)
VertexOf(o, id) ==
  LET S == { k \in DOMAIN o.vids : o.vids[k][1] = id } IN
  IF S # {} THEN o.vids[CHOOSE k \in S : TRUE][2] ELSE IF id >= 1 /\ id <= Len(o.verts) THEN id ELSE 0
(* Bones by number in the list, weights per vertex. *)
WeightsOf(d, o) ==
  LET all == Flat([b \in DOMAIN d.bones |-> Flat([k \in DOMAIN d.bones[b].w |->
                LET w == d.bones[b].w[k] IN IF w[1] = o.uid /\ w[3] > 0 THEN <<<<VertexOf(o, w[2]), b, w[3]>>>> ELSE <<>>])]) IN
  [v \in DOMAIN o.verts |-> SumBy(Flat([k \in DOMAIN all |-> IF all[k][1] = v THEN <<<<all[k][2], all[k][3]>>>> ELSE <<>>]))]
ObjNamed(d, n) == LET S == { i \in DOMAIN d.objs : d.objs[i].name = n } IN IF S = {} THEN 0 ELSE Min(S)
IsTarget(d, n) == \E k \in DOMAIN d.morphs : \E j \in DOMAIN d.morphs[k].targets : d.morphs[k].targets[j] = n
TargetsOf(d, n) == UNION { Rng(d.morphs[k].targets) : k \in { k \in DOMAIN d.morphs : d.morphs[k].base = n } }
UvAt(f, k) == IF Len(f.uv) >= k THEN f.uv[k] ELSE <<0, 0>>
NAt(f, k) == IF Len(f.n) >= k THEN f.n[k] ELSE <<>>
(* What the targets of o do to corner k of face f. *)
MovesOf(d, o, f, k) ==
  { m \in { LET t == d.objs[ObjNamed(d, n)] v == o.faces[f].v[k] IN
            <<n, IF v <= Len(t.verts) THEN Sub3(t.verts[v], o.verts[v]) ELSE <<0, 0, 0>>,
                 IF f <= Len(t.faces) THEN Sub3(UvAt(t.faces[f], k), UvAt(o.faces[f], k)) ELSE <<0, 0>> >>
            : n \in { n \in TargetsOf(d, o.name) : ObjNamed(d, n) # 0 } } : ~Zero(m[2]) \/ ~Zero(m[3]) }
ObjSoup(d, o) ==
  LET W == TLCEval(WeightsOf(d, o)) IN
  [f \in DOMAIN o.faces |-> <<o.faces[f].m, [k \in DOMAIN o.faces[f].v |->
     LET v == o.faces[f].v[k] IN
     [p |-> o.verts[v], uv |-> UvAt(o.faces[f], k), n |-> NAt(o.faces[f], k), w |-> W[v], d |-> MovesOf(d, o, f, k)]]>>]
(* Objects that are drawn: everything but the shapes of morphs. *)
MqoSoup(d) == Flat([i \in DOMAIN d.objs |-> IF IsTarget(d, d.objs[i].name) \/ ~d.objs[i].vis THEN <<>> ELSE ObjSoup(d, d.objs[i])])

(* ---- normals: the sum over the corners at the vertex ---------------------- *)
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
AxisUnit(c) == IF Cardinality({ i \in 1..3 : c[i] # 0 }) = 1 THEN [i \in 1..3 |-> 1000 * SignOf(c[i])] ELSE <<>>
CornerNormal(o, f, k, u) ==
  LET n == Len(f.v) IN
  IF Len(f.n) >= k /\ f.n[k] # <<>> THEN f.n[k] ELSE
  LET P(j) == [i \in 1..3 |-> o.verts[f.v[j]][i] \div u]
      a == P(((k + n - 2) % n) + 1) b == P((k % n) + 1) c == P(k) IN
  AxisUnit(CrossOf(Sub3(a, c), Sub3(b, c)))
(* <<>> when the sum is not known exactly. *)
SmoothNormal(o, v, u) ==
  LET ns == Flat([f \in DOMAIN o.faces |-> Flat([k \in DOMAIN o.faces[f].v |-> IF o.faces[f].v[k] = v THEN <<CornerNormal(o, o.faces[f], k, u)>> ELSE <<>>])]) IN
  IF \E k \in DOMAIN ns : ns[k] = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : Add3(a, b), <<0, 0, 0>>, ns)
(* q is the unit vector of direction s (both in 1/1000). *)
Along(q, s) ==
  \/ s = <<>> \/ s = <<0, 0, 0>>
  \/ LET t == [i \in 1..3 |-> s[i] \div 10] r == [i \in 1..3 |-> q[i] \div 1] c == CrossOf(r, t) IN
     /\ r[1] * t[1] + r[2] * t[2] + r[3] * t[3] > 0
     /\ \A i \in 1..3 : Abs(c[i]) <= 12 * (Abs(t[1]) + Abs(t[2]) + Abs(t[3])) + 2000
     /\ Near(r[1] * r[1] + r[2] * r[2] + r[3] * r[3], 1000000, 10000)

(* Every reference inside a document points at something. *)
MqoValid(d) ==
  /\ \A i \in DOMAIN d.objs : \A f \in DOMAIN d.objs[i].faces : LET F == d.objs[i].faces[f] IN
       /\ \A k \in DOMAIN F.v : F.v[k] \in 1..Len(d.objs[i].verts)
       /\ F.m >= -1 /\ F.m < Len(d.mats)
       /\ Len(F.uv) \in {0, Len(F.v)} /\ Len(F.n) \in {0, Len(F.v)}
  /\ \A i, j \in DOMAIN d.objs : i # j => d.objs[i].uid # d.objs[j].uid
  /\ \A b \in DOMAIN d.bones :
       /\ d.bones[b].parent = 0 \/ \E c \in DOMAIN d.bones : d.bones[c].id = d.bones[b].parent
       /\ \A k \in DOMAIN d.bones[b].w : LET w == d.bones[b].w[k] IN
            \E i \in DOMAIN d.objs : d.objs[i].uid = w[1] /\ VertexOf(d.objs[i], w[2]) \in 1..Len(d.objs[i].verts)
  /\ \A k \in DOMAIN d.morphs : ObjNamed(d, d.morphs[k].base) # 0 /\ \A j \in DOMAIN d.morphs[k].targets : ObjNamed(d, d.morphs[k].targets[j]) # 0
=============================================================================
