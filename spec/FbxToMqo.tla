----------------------------- MODULE FbxToMqo -------------------------------
(* C10.  What an FBX scene draws and what the imported document must draw.    *)
(* Models, geometries and materials are numbered from 1 (0: none), control    *)
(* points, layer indexes and material slots from 0.                           *)
EXTENDS GltfView

(* ---- placement ----------------------------------------------------------------- *)
Euler(r) == MatMul(RotZ(r[3]), MatMul(RotY(r[2]), RotX(r[1])))
LocalOf(m) == MatMul(MoveOf(m.t), MatMul(Euler(m.pre), MatMul(Euler(m.r), ScaleOf(m.s))))
(* The file's axes: which one is right, up and front, and whether reversed. *)
AxesMat(x) == [i \in 1..16 |-> LET c == ((i - 1) \div 4) + 1 r == ((i - 1) % 4) + 1 IN
  IF r = 4 \/ c = 4 THEN (IF i = 16 THEN 1 ELSE 0) ELSE IF x[r][1] = c - 1 THEN 1000 * x[r][2] ELSE 0]
RECURSIVE SceneOf(_, _)
SceneOf(f, n) == IF n = 0 THEN AxesMat(f.axes) ELSE MatMul(SceneOf(f, f.models[n].parent), LocalOf(f.models[n]))

(* ---- layers -------------------------------------------------------------------- *)
(* The entry for corner c (from 1, over all polygons) at control point v of polygon i. *)
Slot(y, i, c, v) == CASE y.map = "ByPolygonVertex" -> c [] y.map \in {"ByControlPoint", "ByVertice"} -> v + 1 [] y.map = "ByPolygon" -> i [] OTHER -> 1
Entry(y, i, c, v, none) == IF y.map = "" THEN none ELSE
  LET k == Slot(y, i, c, v) IN IF y.ref # "IndexToDirect" THEN y.vals[k] ELSE IF y.idx[k] < 0 THEN none ELSE y.vals[y.idx[k] + 1]
FlipV(t) == <<t[1], 1000 - t[2]>>
(* The direction of a normal: perpendicular to what was perpendicular (the linear part is a multiple of 1/4). *)
RECURSIVE Root(_, _)
Root(x, g) == LET h == (g + x \div g) \div 2 IN IF h >= g THEN g ELSE Root(x, h)
UnitDir(v) == LET m == Max({ Abs(v[i]) : i \in 1..3 }) IN IF m = 0 THEN <<0, 0, 0>> ELSE
  LET f == TLCEval([i \in 1..3 |-> IF m > 20000 THEN v[i] \div (m \div 20000 + 1) ELSE v[i] * (20000 \div m)])
      s == Root(f[1] * f[1] + f[2] * f[2] + f[3] * f[3], 40000) IN [i \in 1..3 |-> (f[i] * 1000 + s \div 2) \div s]
SlantOf(M, n) == LET e(c, r) == El(M, c, r) \div 250 N(i) == (i % 3) + 1
    Cof(c, r) == e(N(c), N(r)) * e(N(N(c)), N(N(r))) - e(N(c), N(N(r))) * e(N(N(c)), N(r)) IN
  UnitDir([r \in 1..3 |-> DetSign(M) * (Cof(1, r) * n[1] + Cof(2, r) * n[2] + Cof(3, r) * n[3])])
MatSlot(g, i) == IF g.mat.map = "ByPolygon" THEN g.mat.idx[i] ELSE IF g.mat.map = "AllSame" THEN g.mat.idx[1] ELSE 0

(* ---- the drawn surface of one model --------------------------------------------- *)
Upto(P, i) == SumSeq([k \in 1..(i - 1) |-> Len(P[k])])
PulledBy(f, g, v) == SumBy(Flat([k \in DOMAIN g.skin |-> LET c == g.skin[k] IN
  Flat([j \in DOMAIN c.idx |-> IF c.idx[j] = v THEN <<<<f.models[c.model].name, c.w[j]>>>> ELSE <<>>])]))
MovedBy(M, g, v) == { x \in { <<g.shapes[k].name, LET J == { j \in DOMAIN g.shapes[k].idx : g.shapes[k].idx[j] = v } IN IF J = {} THEN <<0, 0, 0>> ELSE Turn(M, g.shapes[k].d[CHOOSE j \in J : TRUE])>> : k \in DOMAIN g.shapes } : ~Zero(x[2]) }
ModelSoup(f, n) == LET m == f.models[n] IN IF m.geo = 0 THEN <<>> ELSE
  LET g == f.geos[m.geo] M == TLCEval(SceneOf(f, n)) mirrored == DetSign(M) < 0
      V == TLCEval([v \in 0..(Len(g.verts) - 1) |-> [p |-> Place(M, g.verts[v + 1]), w |-> PulledBy(f, g, v), d |-> MovedBy(M, g, v)]]) IN
  [i \in DOMAIN g.polys |-> LET P == g.polys[i] b == Upto(g.polys, i)
     C == [k \in DOMAIN P |-> [p |-> V[P[k]].p, uv |-> IF g.uv.map = "" THEN <<0, 0>> ELSE FlipV(Entry(g.uv, i, b + k, P[k], <<0, 0>>)),
             n |-> IF g.nrm.map = "" THEN <<>> ELSE SlantOf(M, Entry(g.nrm, i, b + k, P[k], <<0, 0, 0>>)), w |-> V[P[k]].w, d |-> V[P[k]].d]] IN
     <<m.mats[MatSlot(g, i) + 1] - 1, IF mirrored THEN C ELSE Reverse(C)>>]

(* ---- the document --------------------------------------------------------------- *)
Bare(s) == LET K == { k \in 1..Len(s) : k + 1 <= Len(s) /\ SubSeq(s, k, k + 1) = "::" } IN IF K = {} THEN s ELSE SubSeq(s, 1, Min(K) - 1)
RECURSIVE Carries(_, _)
Carries(f, n) == f.models[n].geo # 0 \/ \E c \in DOMAIN f.models : f.models[c].parent = n /\ Carries(f, c)
RECURSIVE UpFrom(_, _, _)
UpFrom(d, i, k) == IF k = 0 THEN 0 ELSE IF d.objs[k].depth < d.objs[i].depth THEN k ELSE UpFrom(d, i, k - 1)
ObjParent(d, i) == UpFrom(d, i, i - 1)
NamedObj(d, n) == LET S == { i \in DOMAIN d.objs : d.objs[i].name = n } IN IF Cardinality(S) = 1 THEN CHOOSE i \in S : TRUE ELSE 0
(* Corners name bones and shapes. *)
Called(d, F) == [i \in DOMAIN F |-> <<F[i][1], [k \in DOMAIN F[i][2] |-> [F[i][2][k] EXCEPT
   !.w = { <<d.bones[x[1]].name, x[2]>> : x \in F[i][2][k].w }, !.d = { <<Bare(x[1]), x[2]>> : x \in F[i][2][k].d }]]>>]
TreeKept(f, d) ==
  /\ \A n \in DOMAIN f.models : Carries(f, n) => LET i == NamedObj(d, f.models[n].name) IN i # 0 /\ d.objs[i].vis
       /\ LET p == ObjParent(d, i) IN IF f.models[n].parent = 0 THEN p = 0 ELSE p # 0 /\ d.objs[p].name = f.models[f.models[n].parent].name
  /\ \A i \in DOMAIN d.objs : IsTarget(d, d.objs[i].name) \/ \E n \in DOMAIN f.models : f.models[n].name = d.objs[i].name
  /\ \A i \in DOMAIN d.objs : IsTarget(d, d.objs[i].name) => ~d.objs[i].vis
NothingElse(f, d) == \A i \in DOMAIN d.objs : LET S == { n \in DOMAIN f.models : f.models[n].name = d.objs[i].name } IN
  IsTarget(d, d.objs[i].name) \/ d.objs[i].faces = <<>> \/ \E n \in S : f.models[n].geo # 0
MorphsKept(f, d) == \A n \in DOMAIN f.models : f.models[n].geo # 0 =>
  { Bare(x) : x \in TargetsOf(d, f.models[n].name) } = { s.name : s \in Rng(f.geos[f.models[n].geo].shapes) }

(* ---- the skeleton ---------------------------------------------------------------- *)
Clusters(f) == UNION { Rng(f.geos[f.models[n].geo].skin) : n \in { n \in DOMAIN f.models : f.models[n].geo # 0 } }
RECURSIVE Upward(_, _)
Upward(f, n) == IF n = 0 THEN {} ELSE {n} \cup Upward(f, f.models[n].parent)
BoneAt(d, n) == LET S == { b \in DOMAIN d.bones : d.bones[b].name = n } IN IF Cardinality(S) = 1 THEN CHOOSE b \in S : TRUE ELSE 0
BonesListed(f, d) ==
  /\ \A b, c \in DOMAIN d.bones : b # c => d.bones[b].id # d.bones[c].id
  /\ { d.bones[b].name : b \in DOMAIN d.bones } = { f.models[n].name : n \in UNION { Upward(f, c.model) : c \in Clusters(f) } }
  /\ \A b \in DOMAIN d.bones : BoneAt(d, d.bones[b].name) = b
BoneRight(f, d, b) == LET n == CHOOSE n \in DOMAIN f.models : f.models[n].name = d.bones[b].name p == f.models[n].parent w == SceneOf(f, n) IN
  /\ d.bones[b].parent = (IF p = 0 THEN 0 ELSE d.bones[BoneAt(d, f.models[p].name)].id)
  /\ \A i \in 1..3 : Near(d.bones[b].pos[i], w[12 + i], 1)

TexOf(a) == LET K == { k \in DOMAIN a.texs : a.texs[k].prop = "DiffuseColor" } IN IF K = {} THEN "" ELSE a.texs[Min(K)].file
MatRight(a, b) == Bare(b.name) = a.name /\ b.col = a.col /\ b.tex = TexOf(a)
(* Normals are unit vectors with some rounding. *)
NearCorner(a, b) == a.p = b.p /\ a.uv = b.uv /\ a.w = b.w /\ a.d = b.d /\ Len(a.n) = Len(b.n) /\ \A i \in DOMAIN a.n : Near(a.n[i], b.n[i], 4)
NearFace(x, y) == x[1] = y[1] /\ Len(x[2]) = Len(y[2]) /\ \E k \in DOMAIN x[2] : LET r == RotBy(x[2], k) IN \A j \in DOMAIN r : NearCorner(r[j], y[2][j])
SurfaceBroken(A0, B0) == LET A == TLCEval(A0) B == TLCEval(B0) IN IF A = B \/ BagEq(A, B, NearFace) THEN {} ELSE PartsBroken("C10", A, B)
FbxBroken(f, d) ==
  IF ~MqoValid(d) THEN {"C10.valid"} ELSE
  IF ~TreeKept(f, d) \/ ~NothingElse(f, d) THEN {"C10.hierarchy"} ELSE
  UNION { SurfaceBroken(ModelSoup(f, n), (Called(d, ObjSoup(d, d.objs[NamedObj(d, f.models[n].name)])))) : n \in { n \in DOMAIN f.models : f.models[n].geo # 0 } }
  \cup Clause("C10.targets", MorphsKept(f, d))
  \cup Clause("C10.materials", Len(d.mats) = Len(f.mats) /\ \A i \in DOMAIN f.mats : MatRight(f.mats[i], d.mats[i]))
  \cup (IF ~BonesListed(f, d) THEN {"C10.bones"} ELSE Clause("C10.skeleton", \A b \in DOMAIN d.bones : BoneRight(f, d, b)))
=============================================================================
