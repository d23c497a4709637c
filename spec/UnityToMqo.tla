----------------------------- MODULE UnityToMqo ------------------------------
(* C13.  A loaded Unity scene as an MQO document: one object per game object, *)
(* meshes at their world place in the right handed system, the materials they *)
(* name, and colliders.  Lengths are in thousandths of the chosen scale.      *)
EXTENDS UnityScene

(* ---- the built-in meshes, front faces clockwise, z towards the viewer -------- *)
CubeLoops ==
  LET h == 500 C(x, y, z) == <<x * h, y * h, z * h>> IN
  << <<C(-1, -1, 1), C(-1, 1, 1), C(1, 1, 1), C(1, -1, 1)>>, <<C(-1, -1, -1), C(1, -1, -1), C(1, 1, -1), C(-1, 1, -1)>>,
     <<C(-1, 1, -1), C(1, 1, -1), C(1, 1, 1), C(-1, 1, 1)>>, <<C(-1, -1, -1), C(-1, -1, 1), C(1, -1, 1), C(1, -1, -1)>>,
     <<C(1, -1, -1), C(1, -1, 1), C(1, 1, 1), C(1, 1, -1)>>, <<C(-1, -1, -1), C(-1, 1, -1), C(-1, 1, 1), C(-1, -1, 1)>> >>
QuadLoops == << << <<-500, -500, 0>>, <<-500, 500, 0>>, <<500, 500, 0>>, <<500, -500, 0>> >> >>
PlaneLoops == << << <<-5000, 0, -5000>>, <<5000, 0, -5000>>, <<5000, 0, 5000>>, <<-5000, 0, 5000>> >> >>
(* The texture coordinates of these, from the top left of the picture. *)
QuadUV(p) == <<p[1] + 500, 500 - p[2]>>
PlaneUV(p) == <<(5000 - p[1]) \div 10, (5000 - p[3]) \div 10>>
FlatKinds == {"Cube", "Quad", "Plane"}
RoundKinds == {"Sphere", "Cylinder", "Capsule"}
LoopsOf(k) == CASE k = "Cube" -> CubeLoops [] k = "Quad" -> QuadLoops [] OTHER -> PlaneLoops

Sq(x) == x * x
(* Is the local point p on the surface? *)
OnRound(k, p) ==
  LET Ring(x, y, z) == Near(Sq(x) + Sq(y) + Sq(z), 250000, 3200) IN
  CASE k = "Sphere" -> Ring(p[1], p[2], p[3])
    [] k = "Cylinder" -> Near(Abs(p[2]), 1000, 3) /\ Ring(p[1], 0, p[3])
    [] OTHER -> Ring(p[1], IF Abs(p[2]) > 500 THEN Abs(p[2]) - 500 ELSE 0, p[3])

Mirror(M) == LET S(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0 N == [i \in 1..16 |-> S(M[i])] IN
  N[1] * (N[6] * N[11] - N[7] * N[10]) + N[2] * (N[7] * N[9] - N[5] * N[11]) + N[3] * (N[5] * N[10] - N[6] * N[9]) < 0
LenCol(M, c) == Abs(El(M, c, 1)) + Abs(El(M, c, 2)) + Abs(El(M, c, 3)) \* of quarter turns
(* Back into the object's own system (quarter turns and scales only). *)
Unplace(M, q) == [c \in 1..3 |-> LET r == CHOOSE r \in 1..3 : El(M, c, r) # 0 v == El(M, c, r) d == q[r] - M[12 + r] IN
  IF v > 0 THEN (d * 1000) \div v ELSE (-d * 1000) \div (-v)]
RevLoop(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
PlacedLoop(M, s) == LET r == [i \in DOMAIN s |-> Place(M, s[i])] IN IF Mirror(M) THEN RevLoop(r) ELSE r
NearPt(a, b, t) == \A i \in 1..3 : Near(a[i], b[i], t)
NearLoopAt(a, b, k, t) == \A i \in DOMAIN a : NearPt(a[i], RotBy(b, k)[i], t)
NearLoop(a, b, t) == Len(a) = Len(b) /\ \E k \in 0..(Len(a) - 1) : NearLoopAt(a, b, k, t)
SameLoops(A, B, t) == Len(A) = Len(B) /\ \A i \in DOMAIN A : Cardinality({ j \in DOMAIN B : NearLoop(A[i], B[j], t) }) = Cardinality({ j \in DOMAIN A : NearLoop(A[i], A[j], t) })

(* ---- what is expected ---------------------------------------------------------- *)
FirstOf(comps, t) == LET S == { i \in DOMAIN comps : comps[i].t = t } IN IF S = {} THEN <<>> ELSE <<comps[Min(S)]>>
AllOf(comps, t) == SelectSeq(comps, LAMBDA c : c.t = t)
Keyed(T, k) == SelectSeq(T, LAMBDA e : e.key = k)
RendersIn(c, n) == LET f == FirstOf(n.comps, "MF") r == FirstOf(n.comps, "MR") IN f # <<>> /\ r # <<>> /\ f[1].refs[1] \notin {"", "-"}
MeshIn(c, n) == IF ~RendersIn(c, n) THEN <<>> ELSE Keyed(c.meshes, FirstOf(n.comps, "MF")[1].refs[1])
(* Objects in document order: those of the scene, and under them those of the meshes of other files. *)
RECURSIVE OnOff(_, _)
OnOff(n, up) == LET a == up /\ n.act # 0 IN <<a>> \o Flat([i \in DOMAIN n.kids |-> OnOff(n.kids[i], a)])
Actives(roots) == Flat([i \in DOMAIN roots |-> OnOff(roots[i], TRUE)])
MatsUsed(c, W) == FoldLeft(LAMBDA a, k : IF \E i \in DOMAIN a : a[i] = k THEN a ELSE Append(a, k), <<>>,
  Flat([i \in DOMAIN W |-> IF RendersIn(c, W[i]) THEN FirstOf(W[i].comps, "MR")[1].refs ELSE <<>>]))
IndexIn(s, x) == (CHOOSE i \in DOMAIN s : s[i] = x) - 1
Plan(c) ==
  LET roots == TLCEval(Scene([g \in { c.files[i].g : i \in DOMAIN c.files } |-> c.files[CHOOSE i \in DOMAIN c.files : c.files[i].g = g].items], "A"))
      W == TLCEval(Walk(roots)) A == TLCEval(Actives(roots)) used == TLCEval(MatsUsed(c, W)) IN
  [ objs |-> Flat([i \in DOMAIN W |-> LET m == MeshIn(c, W[i]) lit == A[i] /\ FirstOf(W[i].comps, "MR") # <<>> /\ FirstOf(W[i].comps, "MR")[1].nums[1] # 0
        mats == IF m = <<>> THEN <<>> ELSE LET r == FirstOf(W[i].comps, "MR")[1].refs IN [k \in DOMAIN r |-> IndexIn(used, r[k])]
        base == [name |-> W[i].name, depth |-> W[i].depth, vis |-> A[i], src |-> i, kind |-> "", mesh |-> <<>>, mats |-> mats, tile |-> <<1, 1>>] IN
      IF m = <<>> THEN <<base>>
      ELSE IF m[1].kind = "fbx" THEN <<[base EXCEPT !.name = @ \o "(FBX)"], [base EXCEPT !.name = m[1].name, !.depth = @ + 1, !.vis = lit, !.kind = "fbx", !.mesh = m]>>
      ELSE <<[base EXCEPT !.name = @ \o "(" \o m[1].kind \o ")", !.vis = lit, !.kind = m[1].kind]>>]),
    nodes |-> W, used |-> used ]

(* ---- meshes ------------------------------------------------------------------------ *)
MatOfSlot(o, s) == IF o.mats = <<>> THEN {} ELSE { o.mats[s] }
TileOf(c, P, face) == IF P.used = <<>> \/ face.m >= Len(P.used) THEN <<1, 1>> ELSE LET m == Keyed(c.mats, P.used[face.m + 1]) IN IF m = <<>> THEN <<1, 1>> ELSE m[1].tile
UVFits(o, M, f, t) ==
  \E k \in 0..(Len(f.v) - 1) :
     LET L == LoopsOf(o.kind)[1] r == IF Mirror(M) THEN RevLoop(L) ELSE L
         e == [i \in DOMAIN r |-> IF o.kind = "Quad" THEN QuadUV(r[i]) ELSE PlaneUV(r[i])] IN
     /\ NearLoopAt(f.v, PlacedLoop(M, L), k, 3)
     /\ \A i \in DOMAIN r : LET w == RotBy(e, k) IN \A x \in 1..2 : Near(f.uv[i][x] - f.uv[1][x], t[x] * (w[i][x] - w[1][x]), 2 * t[x])
SquareUV(f, t) == /\ Len(f.uv) = 4
  /\ { <<f.uv[i][1], f.uv[i][2]>> : i \in 1..4 } = { <<a, b>> : a \in {0, 1000 * t[1]}, b \in {0, 1000 * t[2]} }
  /\ \A i \in 1..4 : Cardinality({ x \in 1..2 : f.uv[i][x] # f.uv[(i % 4) + 1][x] }) = 1
Sides(F) == Flat([i \in DOMAIN F |-> [k \in DOMAIN F[i].v |-> <<F[i].v[k], F[i].v[(k % Len(F[i].v)) + 1]>>]])
ClosedUp(F) == LET S == TLCEval(Sides(F)) R == TLCEval(Rng(S)) IN Cardinality(R) = Len(S) /\ \A e \in R : <<e[2], e[1]>> \in R
Outward(L) == \* of a loop of local points of a convex body around the origin, clockwise seen from outside
  LET a == Sub3(L[2], L[1]) b == Sub3(L[3], L[1]) n == CrossOf(a, b) IN
  (n[1] \div 10) * L[1][1] + (n[2] \div 10) * L[1][2] + (n[3] \div 10) * L[1][3] < 0
RoundOk(k, M, F) ==
  LET L == TLCEval([i \in DOMAIN F |-> [j \in DOMAIN F[i].v |-> Unplace(M, F[i].v[j])]]) IN
  /\ Len(F) >= 20 /\ ClosedUp(F)
  /\ \A i \in DOMAIN L : \A j \in DOMAIN L[i] : OnRound(k, L[i][j])
  /\ \A i \in DOMAIN L : Outward(IF Mirror(M) THEN RevLoop(L[i]) ELSE L[i])
FbxLoop(m, p) == [i \in DOMAIN p |-> <<-((p[i][1] * m.unit) \div 100), (p[i][2] * m.unit) \div 100, -((p[i][3] * m.unit) \div 100)>>]
MeshBroken(c, P, o, F) ==
  LET M == P.nodes[o.src].world IN
  IF P.nodes[o.src].far THEN {} ELSE
  CASE o.kind = "" -> Clause("C13.mesh.none", F = <<>>)
    [] o.kind \in FlatKinds ->
         Clause("C13.mesh", SameLoops([i \in DOMAIN F |-> F[i].v], [i \in DOMAIN LoopsOf(o.kind) |-> PlacedLoop(M, LoopsOf(o.kind)[i])], 3))
         \cup Clause("C13.facemat", o.mats = <<>> \/ \A i \in DOMAIN F : F[i].m = o.mats[1])
         \cup (IF o.mats = <<>> THEN {} ELSE IF o.kind = "Cube" THEN Clause("C13.uv", \A i \in DOMAIN F : SquareUV(F[i], TileOf(c, P, F[i])))
               ELSE Clause("C13.uv", \A i \in DOMAIN F : Len(F[i].uv) = Len(F[i].v) /\ UVFits(o, M, F[i], TileOf(c, P, F[i]))))
    [] o.kind \in RoundKinds ->
         Clause("C13.mesh", (\E x \in 1..3 : LenCol(M, x) < 500) \/ RoundOk(o.kind, M, F))
         \cup Clause("C13.facemat", o.mats = <<>> \/ \A i \in DOMAIN F : F[i].m = o.mats[1])
         \cup Clause("C13.uv", o.mats = <<>> \/ \A i \in DOMAIN F : Len(F[i].uv) = Len(F[i].v) /\ \A j \in DOMAIN F[i].uv : \A x \in 1..2 : F[i].uv[j][x] \in -1..(1000 * TileOf(c, P, F[i])[x] + 1))
    [] OTHER -> LET m == o.mesh[1]
                    want == [i \in DOMAIN m.polys |-> [v |-> PlacedLoop(M, RevLoop(FbxLoop(m, m.polys[i].v))), m |-> IF m.polys[i].slot + 1 \in DOMAIN o.mats THEN o.mats[m.polys[i].slot + 1] ELSE 0]] IN
         Clause("C13.mesh", SameLoops([i \in DOMAIN F |-> F[i].v], [i \in DOMAIN want |-> want[i].v], 4))
         \cup Clause("C13.facemat", Len(F) = Len(want) => \A i \in DOMAIN F : \E j \in DOMAIN want : NearLoop(F[i].v, want[j].v, 4) /\ F[i].m = want[j].m)

(* ---- colliders ----------------------------------------------------------------------- *)
Sh(t, ctr, a, b, d) == [t |-> t, ctr |-> ctr, a |-> a, b |-> b, d |-> d]
ShapeList(c, comps) ==
  LET Ctr(x) == <<x.nums[2], x.nums[3], -x.nums[4]>> IN
  Flat([i \in DOMAIN AllOf(comps, "BX") |-> LET x == AllOf(comps, "BX")[i] IN << Sh("BOX", Ctr(x), <<x.nums[5], x.nums[6], x.nums[7]>>, 0, 0) >>])
  \o Flat([i \in DOMAIN AllOf(comps, "SP") |-> LET x == AllOf(comps, "SP")[i] IN << Sh("SPHERE", Ctr(x), x.nums[5], 0, 0) >>])
  \o Flat([i \in DOMAIN AllOf(comps, "CP") |-> LET x == AllOf(comps, "CP")[i] IN << Sh("CAPSULE", Ctr(x), x.nums[5], x.nums[7], x.nums[6]) >>])
  \o Flat([i \in DOMAIN AllOf(comps, "MC") |-> LET m == Keyed(c.meshes, AllOf(comps, "MC")[i].refs[1]) IN
       IF m = <<>> \/ m[1].kind = "fbx" THEN <<>>
       ELSE IF m[1].kind = "Cube" THEN << Sh("BOX", <<0, 0, 0>>, <<1000, 1000, 1000>>, 0, 0) >>
       ELSE IF m[1].kind = "Sphere" THEN << Sh("SPHERE", <<0, 0, 0>>, 500, 0, 0) >>
       ELSE << Sh("MESH", <<0, 0, 0>>, 0, 0, 0) >>])
Even(M) == LenCol(M, 1) = LenCol(M, 2) /\ LenCol(M, 2) = LenCol(M, 3)
Straight(M) == M[1] > 0 /\ M[6] > 0 /\ M[11] > 0
Times(x, k) == (x * k) \div 1000
ShapeOk(M, s, g) ==
  /\ g.t = s.t
  /\ s.t # "MESH" => NearPt(g.pos, Place(M, s.ctr), 3)
  /\ CASE s.t = "BOX" -> \A i \in 1..3 : Near(2 * g.size[i], Times(s.a[i], LenCol(M, i)), 4)
       [] s.t = "SPHERE" -> Even(M) => Near(g.size[1], Times(s.a, LenCol(M, 1)), 4)
       [] s.t = "CAPSULE" -> Even(M) => Near(g.size[1], Times(s.a, LenCol(M, 1)), 4) /\ Near(g.size[2], Times(IF s.b > 2 * s.a THEN s.b - 2 * s.a ELSE 0, LenCol(M, 1)), 6)
       [] OTHER -> TRUE
  /\ Straight(M) /\ s.t # "MESH" => LET z(k) == Near(g.rot[k], 0, 2) q(k) == Near(Abs(g.rot[k]), 1571, 2) IN
       IF s.t = "CAPSULE" /\ s.d = 0 THEN z(1) /\ z(2) /\ q(3) ELSE IF s.t = "CAPSULE" /\ s.d = 2 THEN q(1) /\ z(2) /\ z(3) ELSE s.t = "SPHERE" \/ (z(1) /\ z(2) /\ z(3))
BodyPlan(c, P) == Flat([i \in DOMAIN P.objs |-> IF P.objs[i].kind = "fbx" THEN <<>> ELSE
  LET n == P.nodes[P.objs[i].src] s == ShapeList(c, n.comps) r == FirstOf(n.comps, "RB") IN
  IF s = <<>> THEN <<>> ELSE << [at |-> i, shapes |-> s, far |-> n.far, world |-> n.world, mass |-> IF r = <<>> THEN 1000 ELSE r[1].nums[1], drag |-> IF r = <<>> THEN <<0, 0>> ELSE <<r[1].nums[2], r[1].nums[3]>>, kin |-> r = <<>> \/ r[1].nums[5] # 0] >>])
BodiesBroken(c, P, got) ==
  LET want == IF c.phys THEN TLCEval(BodyPlan(c, P)) ELSE <<>> IN
  IF Len(want) # Len(got.bodies) THEN {"C13.bodies"} ELSE
  Clause("C13.bodies", \A i \in DOMAIN want : LET w == want[i] g == got.bodies[i] IN
     /\ g.obj = w.at /\ g.name = P.objs[w.at].name /\ g.mass = w.mass /\ g.kin = w.kin /\ g.drag = w.drag /\ Len(g.shapes) = Len(w.shapes))
  \cup Clause("C13.shapes", \A i \in DOMAIN want : want[i].far \/ Len(got.bodies[i].shapes) # Len(want[i].shapes) \/ \A k \in DOMAIN want[i].shapes : ShapeOk(want[i].world, want[i].shapes[k], got.bodies[i].shapes[k]))

(* ---- materials, lights, the whole ------------------------------------------------------ *)
MatOk(c, w, g) == /\ g.name = w.name /\ g.col = w.col /\ g.emi = w.emi
  /\ g.tex = (IF c.save THEN w.texname ELSE "") /\ g.bump = (IF c.save THEN w.bumpname ELSE "")
MatsBroken(c, P, got) ==
  IF P.used = <<>> THEN Clause("C13.materials", Len(got.mats) = 1) ELSE
  IF Len(got.mats) # Len(P.used) THEN {"C13.materials"} ELSE
  LET W == [i \in DOMAIN P.used |-> Keyed(c.mats, P.used[i])[1]] IN
  Clause("C13.materials", \A i \in DOMAIN W : MatOk(c, W[i], got.mats[i]))
  \cup Clause("C13.textures", c.save => Rng(got.saved) = UNION { {W[i].texname, W[i].bumpname} \ {""} : i \in DOMAIN W })
LightOk(n, g) == LET l == FirstOf(n.comps, "LT") IN
  IF l = <<>> THEN g.light = <<>> ELSE
  /\ g.light = << IF l[1].nums[1] = 1 THEN "directional" ELSE IF l[1].nums[1] = 2 THEN "point" ELSE "spot", l[1].nums[2], l[1].nums[3], l[1].nums[4], l[1].nums[5], l[1].nums[6] >>
  /\ n.far \/ (Len(g.intern) = 16 /\ SameWorld(n.world, g.intern))
(* Worlds out of the places of the document's objects. *)
WorldsOf(objs) == FoldLeft(LAMBDA a, i : LET up == { k \in DOMAIN a : objs[k].depth = objs[i].depth - 1 } IN
    Append(a, IF up = {} THEN objs[i].m ELSE MatMul(a[Max(up)], objs[i].m)), <<>>, [i \in DOMAIN objs |-> i])
UnityToMqoBroken(c, got) ==
  LET P == TLCEval(Plan(c)) IN
  IF Len(P.objs) # Len(got.objs) THEN {"C13.objects"} ELSE
  IF \E i \in DOMAIN P.objs : P.objs[i].name # got.objs[i].name \/ P.objs[i].depth # got.objs[i].depth THEN {"C13.hierarchy"} ELSE
  LET W == TLCEval(WorldsOf(got.objs)) IN
  Clause("C13.visible", \A i \in DOMAIN P.objs : P.objs[i].vis = got.objs[i].vis)
  \cup Clause("C13.ids", \A i, j \in DOMAIN got.objs : i # j => got.objs[i].uid # got.objs[j].uid)
  \cup Clause("C13.place", \A i \in DOMAIN P.objs : P.objs[i].kind = "fbx" \/ P.nodes[P.objs[i].src].far \/ SameWorld(P.nodes[P.objs[i].src].world, W[i]))
  \cup UNION { MeshBroken(c, P, P.objs[i], got.objs[i].faces) : i \in DOMAIN P.objs }
  \cup Clause("C13.light", \A i \in DOMAIN P.objs : P.objs[i].kind = "fbx" \/ LightOk(P.nodes[P.objs[i].src], got.objs[i]))
  \cup BodiesBroken(c, P, got) \cup MatsBroken(c, P, got)
=============================================================================
