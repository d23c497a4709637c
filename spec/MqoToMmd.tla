------------------------------ MODULE MqoToMmd ------------------------------
(* C06.  What an MQO document draws, and what its PMX model must draw.       *)
(* One PMX unit is 80 MQO units; depth is mirrored.                          *)
EXTENDS Soup
Scale == 80
ToPmx(v) == <<v[1] \div Scale, v[2] \div Scale, -(v[3] \div Scale)>>
(* ---- the surface to keep --------------------------------------------------- *)
DrawnObjs(d) == { i \in DOMAIN d.objs : d.objs[i].vis /\ ~IsTarget(d, d.objs[i].name) }
Drawn(d, f) == Len(f.v) >= 3 /\ f.m >= 0 /\ f.m < Len(d.mats)
SrcCorner(c) == [p |-> ToPmx(c.p), uv |-> c.uv, w |-> c.w, d |-> { x \in { <<m[1], ToPmx(m[2])>> : m \in c.d } : ~Zero(x[2]) }]
SrcSoup(d) == Flat([i \in DOMAIN d.objs |-> IF i \notin DrawnObjs(d) THEN <<>> ELSE
   LET S == ObjSoup(d, d.objs[i]) IN
   Flat([f \in DOMAIN S |-> IF Drawn(d, d.objs[i].faces[f]) THEN <<<<S[f][1], [k \in DOMAIN S[f][2] |-> SrcCorner(S[f][2][k])]>>>> ELSE <<>>])])
(* <<material, place, uv, normal>> of every drawn corner. *)
SrcNormals(d) == UNION { UNION { { LET v == d.objs[i].faces[f].v[k] IN <<d.objs[i].faces[f].m, ToPmx(d.objs[i].verts[v]), UvAt(d.objs[i].faces[f], k), SmoothNormal(d.objs[i], v, 1000 * Scale)>>
      : k \in DOMAIN d.objs[i].faces[f].v } : f \in { f \in DOMAIN d.objs[i].faces : Drawn(d, d.objs[i].faces[f]) } } : i \in DrawnObjs(d) }
(* ---- the surface of the PMX model -------------------------------------- *)
RECURSIVE MatOfFrom(_, _, _)
MatOfFrom(mats, i, f) == IF i > Len(mats) THEN -1 ELSE IF 3 * f <= mats[i].count THEN i - 1 ELSE MatOfFrom(mats, i + 1, f - mats[i].count \div 3)
PWeights(v) == { x \in SumBy([k \in DOMAIN v.bones |-> <<v.bones[k] + 1, v.w[k]>>]) : x[2] > 0 }
PShift(m, v) == FoldLeft(LAMBDA a, x : IF x[1] = v THEN Add3(a, <<x[2], x[3], x[4]>>) ELSE a, <<0, 0, 0>>, m.vertex)
PMoves(p, v) == { m \in { <<p.morphs[i].name, PShift(p.morphs[i], v)>> : i \in DOMAIN p.morphs } : ~Zero(m[2]) }
PSoup(p) ==
  LET C == [v \in 0..(Len(p.verts) - 1) |-> LET x == p.verts[v + 1] IN [p |-> x.pos, uv |-> x.uv, w |-> PWeights(x), d |-> PMoves(p, v)]] IN
  [f \in DOMAIN p.faces |-> <<MatOfFrom(p.mats, 1, f), [k \in 1..3 |-> C[p.faces[f][k]]]>>]
Ref(x, n) == x >= -1 /\ x < n
PmxValid(p) ==
  LET nv == Len(p.verts) nb == Len(p.bones) nt == Len(p.tex) IN
  /\ \A f \in DOMAIN p.faces : \A k \in 1..3 : p.faces[f][k] >= 0 /\ p.faces[f][k] < nv
  /\ \A v \in DOMAIN p.verts : Len(p.verts[v].bones) = Len(p.verts[v].w) /\ Len(p.verts[v].bones) <= 4 /\ \A k \in DOMAIN p.verts[v].bones : p.verts[v].bones[k] >= 0 /\ p.verts[v].bones[k] < nb
  /\ SumSeq(Map(p.mats, LAMBDA m : m.count)) = 3 * Len(p.faces)
  /\ \A m \in DOMAIN p.mats : Ref(p.mats[m].tex, nt) /\ Ref(p.mats[m].env, nt) /\ Ref(p.mats[m].toon, nt)
  /\ \A b \in DOMAIN p.bones : Ref(p.bones[b].parent, nb) /\ Ref(p.bones[b].tailid, nb)
  /\ \A m \in DOMAIN p.morphs : \A k \in DOMAIN p.morphs[m].vertex : p.morphs[m].vertex[k][1] >= 0 /\ p.morphs[m].vertex[k][1] < nv
  /\ \A b \in DOMAIN p.bodies : Ref(p.bodies[b].bone, nb)
BoneAt(d, id) == LET S == { i \in DOMAIN d.bones : d.bones[i].id = id } IN IF id = 0 \/ S = {} THEN 0 ELSE Min(S)
MatSame(p, a, b) == b.name = a.name /\ b.col = a.col /\ b.specp = a.pow /\ (IF a.tex = "" THEN b.tex = -1 ELSE b.tex >= 0 /\ b.tex < Len(p.tex) /\ p.tex[b.tex + 1] = a.tex) /\ b.env = -1
BoneSame(d, a, b) == b.name = a.name /\ b.pos = ToPmx(a.pos) /\ b.parent = BoneAt(d, a.parent) - 1
ShapeNo(s) == CASE s = "SPHERE" -> 0 [] s = "BOX" -> 1 [] s = "CAPSULE" -> 2 [] OTHER -> -1
BodyShapes(d) == Flat([i \in DOMAIN d.bodies |-> [k \in DOMAIN d.bodies[i].shapes |-> <<d.bodies[i], d.bodies[i].shapes[k], k>>]])
Div80(v) == [i \in 1..3 |-> v[i] \div Scale]
BodySame(d, x, b) == LET a == x[1] s == x[2] IN
  /\ HasPrefix(b.name, a.name) /\ (x[3] = 1 => b.name = a.name)
  /\ (ShapeNo(s.type) >= 0 => b.shape = ShapeNo(s.type)) /\ b.size = Div80(s.size) /\ b.pos = ToPmx(s.pos) /\ b.rot = s.rot
  /\ b.mass = a.mass /\ (b.mode = 0) = a.kin /\ b.group = a.group /\ b.mask = a.mask /\ b.ld = a.ld /\ b.ad = a.ad /\ b.rest = a.rest /\ b.fric = a.fric
  /\ b.bone = BoneAt(d, a.bone) - 1
MorphNames(d) == Flat([k \in DOMAIN d.morphs |-> d.morphs[k].targets])
ToMmdBroken(d, p) ==
  IF ~PmxValid(p) THEN {"C06.valid"} ELSE
  CoverBroken("C06", SrcSoup(d), PSoup(p), 500)
  \cup Clause("C06.normals", LET N == SrcNormals(d) IN
       \A f \in DOMAIN p.faces : \A k \in 1..3 : LET v == p.verts[p.faces[f][k] + 1] m == MatOfFrom(p.mats, 1, f)
          S == { x \in N : x[1] = m /\ x[2] = v.pos /\ x[3] = v.uv } IN
          S = {} \/ \E x \in S : Along(MirrorZ(v.nrm), x[4]))
  \cup Clause("C06.materials", Len(p.mats) = Len(d.mats) /\ \A i \in DOMAIN d.mats : MatSame(p, d.mats[i], p.mats[i]))
  \cup Clause("C06.bones", Len(p.bones) = Len(d.bones) /\ \A i \in DOMAIN d.bones : BoneSame(d, d.bones[i], p.bones[i]))
  \cup Clause("C06.morphnames", Map(p.morphs, LAMBDA m : m.name) = MorphNames(d))
  \cup Clause("C06.bodies", LET B == BodyShapes(d) IN Len(p.bodies) = Len(B) /\ \A i \in DOMAIN B : BodySame(d, B[i], p.bodies[i]))

(* ---- the design of the converter ------------------------------------------ *)
(* Per material and object, one output vertex for each pair of vertex and uv; *)
(* polygons are fanned from a corner that sees all others.                    *)
Fan(n, s) == [k \in 1..(n - 2) |-> <<((s - 1) % n) + 1, ((s + k - 1) % n) + 1, ((s + k) % n) + 1>>]
GoodFan(L) == LET n == Len(L) S == { s \in 1..n : SumSeq([k \in 1..(n - 2) |-> AreaOf([j \in 1..3 |-> L[Fan(n, s)[k][j]]], 500)]) = AreaOf(L, 500) } IN
  Fan(n, IF S = {} THEN 1 ELSE Min(S))
Keys(d, i, m) == LET o == d.objs[i] IN
  FoldLeft(LAMBDA a, x : IF x \in Rng(a) THEN a ELSE Append(a, x), <<>>,
    Flat([f \in DOMAIN o.faces |-> IF Drawn(d, o.faces[f]) /\ o.faces[f].m = m THEN [k \in DOMAIN o.faces[f].v |-> <<i, o.faces[f].v[k], UvAt(o.faces[f], k)>>] ELSE <<>>]))
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Parts(d) == SetToSortSeq({ <<m, i>> : m \in 0..(Len(d.mats) - 1), i \in DrawnObjs(d) }, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
UnitOf(n) == IF n = <<>> \/ n = <<0, 0, 0>> THEN <<0, 1000, 0>> ELSE n
Design(d) ==
  LET parts == Parts(d)
      keys == Flat([q \in DOMAIN parts |-> [k \in DOMAIN Keys(d, parts[q][2], parts[q][1]) |-> <<parts[q][1]>> \o Keys(d, parts[q][2], parts[q][1])[k]]])
      W == [i \in DOMAIN d.objs |-> WeightsOf(d, d.objs[i])]
      tris(m) == Flat([i \in DOMAIN d.objs |-> IF i \notin DrawnObjs(d) THEN <<>> ELSE LET o == d.objs[i] IN
          Flat([f \in DOMAIN o.faces |-> IF ~Drawn(d, o.faces[f]) \/ o.faces[f].m # m THEN <<>> ELSE
            LET F == o.faces[f]
                at(k) == PosIn(keys, <<m, i, F.v[k], UvAt(F, k)>>) - 1
                T == GoodFan([k \in DOMAIN F.v |-> ToPmx(o.verts[F.v[k]])]) IN
            [t \in DOMAIN T |-> <<at(T[t][1]), at(T[t][2]), at(T[t][3])>>]])])
      shift(n, k) == LET i == keys[k][2] v == keys[k][3] t == ObjNamed(d, n) IN
          IF n \notin TargetsOf(d, d.objs[i].name) \/ t = 0 THEN <<0, 0, 0>> ELSE ToPmx(Sub3(d.objs[t].verts[v], d.objs[i].verts[v])) IN
  [verts |-> [k \in DOMAIN keys |-> LET o == d.objs[keys[k][2]] w == SetToSeq(W[keys[k][2]][keys[k][3]]) IN
      [pos |-> ToPmx(o.verts[keys[k][3]]), uv |-> keys[k][4], nrm |-> <<>>, bones |-> [j \in DOMAIN w |-> w[j][1] - 1], w |-> [j \in DOMAIN w |-> w[j][2]]]],
   faces |-> Flat([m \in 1..Len(d.mats) |-> tris(m - 1)]),
   mats |-> [m \in DOMAIN d.mats |-> [count |-> 3 * Len(tris(m - 1)), tex |-> -1, env |-> -1, toon |-> -1]],
   bones |-> [b \in DOMAIN d.bones |-> [parent |-> -1, tailid |-> -1]], tex |-> <<>>, bodies |-> <<>>,
   morphs |-> [j \in DOMAIN MorphNames(d) |-> [name |-> MorphNames(d)[j], vertex |-> Flat([k \in DOMAIN keys |->
      LET x == shift(MorphNames(d)[j], k) IN IF Zero(x) THEN <<>> ELSE <<<<k - 1>> \o x>>])]]]
DesignOk(d) == LET p == Design(d) IN PmxValid(p) /\ CoverBroken("C06", SrcSoup(d), PSoup(p), 500) = {}
=============================================================================
