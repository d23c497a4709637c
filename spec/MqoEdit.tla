------------------------------ MODULE MqoEdit ------------------------------
(* C20 and C21.  An MQO document as the state of an editor, and what every   *)
(* whole-document edit does to it.  Numbers are integers: coordinates in     *)
(* 1/1000, face normals in 1/100, rotation matrices of operations in 1/5.    *)
EXTENDS Geo

Tol == 60
(* ---- hierarchy: the list of objects with depths is a forest ------------ *)
(* 0 when the object is a root. *)
Parent(d, i) == LET C == { j \in 1..(i - 1) : d[j] < d[i] } IN IF C = {} THEN 0 ELSE Max(C)
RECURSIVE Ancestors(_, _)
Ancestors(d, i) == LET p == Parent(d, i) IN IF p = 0 THEN {} ELSE {p} \cup Ancestors(d, p)
Depths(doc) == [i \in DOMAIN doc.objs |-> doc.objs[i].depth]

(* ---- matrices in 1/1000 ------------------------------------------------ *)
(* c = a * b where a is in 1/u and b, c are in 1/1000. *)
IsProd(c, a, b, u, tol) ==
  /\ \A i, j \in 1..3 : Near(u * c.r[i][j], a.r[i][1] * b.r[1][j] + a.r[i][2] * b.r[2][j] + a.r[i][3] * b.r[3][j], u * tol)
  /\ \A i \in 1..3 : Near(u * c.t[i], a.r[i][1] * b.t[1] + a.r[i][2] * b.t[2] + a.r[i][3] * b.t[3] + (IF u = 1000 THEN a.t[i] ELSE u * a.t[i]) * 1000, u * tol)
(* Every object's world placement is its parent's followed by its own. *)
WorldOk(doc) ==
  LET d == Depths(doc) IN
  \A i \in DOMAIN doc.objs :
     LET p == Parent(d, i) IN
     IF p = 0 THEN CloseT(doc.world[i], doc.objs[i].loc, 1)
     ELSE IsProd(doc.world[i], doc.world[p], doc.objs[i].loc, 1000, Tol)

(* ---- transforming everything by m (rotation*scale in 1/5, shift in units) - *)
Image(q, m, v) == \A i \in 1..3 : Near(5 * q[i], Dot3(m.r[i], v) + 5000 * m.t[i], 5 * 5)
Cof(m) == <<Cross3(m[2], m[3]), Cross3(m[3], m[1]), Cross3(m[1], m[2])>>
SgnDet(m) == IF Dot3(m[1], Cross3(m[2], m[3])) < 0 THEN -1 ELSE 1
(* A normal stays perpendicular: it is transformed by the inverse transpose. *)
NormalImage(q, m, n) ==
  LET e == [i \in 1..3 |-> SgnDet(m) * Dot3(Cof(m)[i], n)]
      l1 == Abs(e[1]) + Abs(e[2]) + Abs(e[3]) IN
  \/ n = <<0, 0, 0>>
  \/ /\ \A i \in 1..3 : Abs(Cross3(q, e)[i]) <= 2 * l1
     /\ Dot3(q, e) > 0
UnitN(q) == Near(Dot3(q, q), 10000, 350)
Uniform(s) == Abs(s[1]) = Abs(s[2]) /\ Abs(s[2]) = Abs(s[3])

SameFaces(a, b) == a = b
TransformBroken(pre, post, g, m) ==
  LET n == Len(pre.objs) d == Depths(pre) IN
  IF Len(post.objs) # n THEN {"C20.transform.objects"} ELSE
  Clause("C20.transform.vertices",
    \A i \in 1..n : Len(post.objs[i].verts) = Len(pre.objs[i].verts)
      /\ \A k \in DOMAIN pre.objs[i].verts : Image(post.objs[i].verts[k], m, pre.objs[i].verts[k]))
  \cup Clause("C20.transform.normals",
    \A i \in 1..n : \A f \in DOMAIN pre.objs[i].faces :
      LET a == pre.objs[i].faces[f] b == post.objs[i].faces[f] IN
      Len(a.n) = Len(b.n) /\ \A k \in DOMAIN a.n :
         IF a.n[k] = <<>> THEN b.n[k] = <<>> ELSE b.n[k] # <<>> /\ NormalImage(b.n[k], m.r, a.n[k]) /\ (UnitN(a.n[k]) => UnitN(b.n[k])))
  \cup Clause("C20.transform.faces",
    \A i \in 1..n : Len(post.objs[i].faces) = Len(pre.objs[i].faces) /\ \A f \in DOMAIN pre.objs[i].faces :
      LET a == pre.objs[i].faces[f] b == post.objs[i].faces[f] IN a.v = b.v /\ a.m = b.m /\ a.uv = b.uv /\ a.uid = b.uid)
  \cup Clause("C20.transform.world", \A i \in 1..n : IsProd(post.world[i], m, pre.world[i], 5, Tol))
  \cup Clause("C20.transform.internal",
    \A i \in 1..n : Len(post.objs[i].it) = Len(pre.objs[i].it) /\ \A k \in DOMAIN pre.objs[i].it : IsProd(post.objs[i].it[k], m, pre.objs[i].it[k], 5, Tol))
  \cup Clause("C20.transform.bones",
    Len(post.bones) = Len(pre.bones) /\ \A k \in DOMAIN pre.bones :
      Image(post.bones[k].pos, m, pre.bones[k].pos) /\ post.bones[k].w = pre.bones[k].w /\ post.bones[k].parent = pre.bones[k].parent)
  \cup Clause("C20.transform.bodies",
    Len(post.bodies) = Len(pre.bodies) /\ \A k \in DOMAIN pre.bodies :
      Image(post.bodies[k].pos, m, pre.bodies[k].pos) /\ post.bodies[k].bone = pre.bodies[k].bone)
  \cup (IF Uniform(g.s) \/ (g.e[1] \in {1, 7} /\ g.e[2] \in {1, 7} /\ g.e[3] \in {1, 7}) THEN
        Clause("C20.transform.size", Len(post.bodies) = Len(pre.bodies) /\ \A k \in DOMAIN pre.bodies : \A i \in 1..3 :
          Near(post.bodies[k].size[i], Abs(g.s[i]) * pre.bodies[k].size[i], 5)) ELSE {})
  \cup Clause("C20.transform.joints", Len(post.joints) = Len(pre.joints) /\ \A k \in DOMAIN pre.joints : Image(post.joints[k], m, pre.joints[k]))

(* Looking a vertex up: its identifier, else its position number; 0 if none. *)
FindVertex(o, uid) ==
  LET S == { k \in DOMAIN o.uids : o.uids[k][1] = uid } IN
  IF S # {} THEN o.uids[CHOOSE k \in S : TRUE][2] ELSE IF uid >= 1 /\ uid <= Len(o.verts) THEN uid ELSE 0
(* ---- posing a bone ------------------------------------------------------ *)
(* Everything below the bone, whatever the order of the list. *)
BoneAt(bones, id) == LET S == { k \in DOMAIN bones : bones[k].id = id } IN IF S = {} THEN 0 ELSE Min(S)
RECURSIVE Below(_, _)
Below(bones, S) ==
  LET T == S \cup { k \in DOMAIN bones : bones[k].parent > 0 /\ BoneAt(bones, bones[k].parent) \in S } IN
  IF T = S THEN S ELSE Below(bones, T)
ObjOfName(doc, n) == LET S == { i \in DOMAIN doc.objs : doc.objs[i].name = n } IN IF S = {} THEN 0 ELSE Max(S)
ObjOfUid(doc, u) == LET S == { i \in DOMAIN doc.objs : doc.objs[i].uid = u } IN IF S = {} THEN 0 ELSE Min(S)
(* The objects that follow object i: itself and its morph targets. *)
Followers(doc, i) ==
  {i} \cup { ObjOfName(doc, t) : t \in UNION { Rng(doc.morphs[k].targets) : k \in { k \in DOMAIN doc.morphs : ObjOfName(doc, doc.morphs[k].base) = i } } }
(* Total weight (percent) with which vertex v of object o follows the bones S. *)
WeightOf(doc, S, o, v) ==
  SumSeq(Flat([k \in DOMAIN doc.bones |->
     IF k \notin S THEN <<>> ELSE
     [w \in DOMAIN doc.bones[k].w |->
        LET x == doc.bones[k].w[w] src == ObjOfUid(doc, x.obj) IN
        IF src # 0 /\ o \in Followers(doc, src) /\ FindVertex(doc.objs[o], x.vert) = v THEN x.w ELSE 0]]))
Turn(axis, a) == IF axis = 1 THEN RotX(a) ELSE IF axis = 2 THEN RotY(a) ELSE RotZ(a)
(* v' = w (R (v - p) + p) + (1 - w) v, in units of 1/500000 *)
Posed500(R, p, v, w) == [i \in 1..3 |-> w * (Dot3(R[i], [k \in 1..3 |-> v[k] - p[k]]) + 5 * p[i]) + (100 - w) * 5 * v[i]]
IsPosed(q, R, p, v, w) == \A i \in 1..3 : Near(500 * q[i], Posed500(R, p, v, w)[i], 500 * 4)
PoseBroken(pre, post, b, R, axis) ==
  LET S == Below(pre.bones, {b}) p == pre.bones[b].pos n == Len(pre.objs) IN
  IF Len(post.objs) # n \/ Len(post.bones) # Len(pre.bones) THEN {"C20.pose.elements"} ELSE
  Clause("C20.pose.bones", \A k \in DOMAIN pre.bones : IsPosed(post.bones[k].pos, R, p, pre.bones[k].pos, IF k \in S THEN 100 ELSE 0))
  \cup Clause("C20.pose.keep", \A k \in DOMAIN pre.bones : post.bones[k].parent = pre.bones[k].parent /\ post.bones[k].w = pre.bones[k].w /\ post.bones[k].id = pre.bones[k].id)
  \cup Clause("C20.pose.vertices", \A i \in 1..n : Len(post.objs[i].verts) = Len(pre.objs[i].verts)
        /\ \A k \in DOMAIN pre.objs[i].verts : IsPosed(post.objs[i].verts[k], R, p, pre.objs[i].verts[k], WeightOf(pre, S, i, k)))
  \cup Clause("C20.pose.faces", \A i \in 1..n : post.objs[i].faces = pre.objs[i].faces)
  \cup Clause("C20.pose.bodies", Len(post.bodies) = Len(pre.bodies) /\ \A k \in DOMAIN pre.bodies :
        LET t == BoneAt(pre.bones, pre.bodies[k].bone) IN
        /\ IsPosed(post.bodies[k].pos, R, p, pre.bodies[k].pos, IF pre.bodies[k].bone > 0 /\ t \in S THEN 100 ELSE 0)
        /\ post.bodies[k].size = pre.bodies[k].size)
  \cup Clause("C20.pose.bodies.rotation", Len(post.bodies) = Len(pre.bodies) /\ \A k \in DOMAIN pre.bodies :
        LET t == BoneAt(pre.bones, pre.bodies[k].bone) in == pre.bodies[k].bone > 0 /\ t \in S IN
        \* only where no convention of rotation order is involved
        IF ~in THEN post.bodies[k].rot = pre.bodies[k].rot
        ELSE (\A i \in 1..3 : i # axis => pre.bodies[k].rot[i] = 0) =>
             IsProd([r |-> post.bodies[k].rm, t |-> <<0, 0, 0>>], [r |-> R, t |-> <<0, 0, 0>>], [r |-> pre.bodies[k].rm, t |-> <<0, 0, 0>>], 5, 5))
(* Straightening: the longest child direction is turned about Z onto the X axis. *)
Child(bones, b) == { k \in DOMAIN bones : bones[k].parent = bones[b].id }
Len2(v) == (v[1] * v[1] + v[2] * v[2] + v[3] * v[3])

(* ---- names and identifiers ------------------------------------------------ *)
UniqueAt(s, i) == \A j \in DOMAIN s : s[j] = s[i] => j = i
FirstAt(s, i) == \A j \in DOMAIN s : s[j] = s[i] => j >= i
NamesBroken(what, pre, post) ==
  IF Len(pre) # Len(post) THEN {"C21." \o what \o ".count"} ELSE
  Clause("C21." \o what \o ".duplicates", NoDup(post))
  \cup Clause("C21." \o what \o ".keep", \A i \in DOMAIN pre : FirstAt(pre, i) => post[i] = pre[i])
  \cup Clause("C21." \o what \o ".related", \A i \in DOMAIN pre : HasPrefix(post[i], pre[i]))
IdsBroken(pre, post) ==
  IF Len(pre) # Len(post) THEN {"C21.ids.count"} ELSE
  Clause("C21.ids.keep", \A i \in DOMAIN pre : pre[i] # 0 => post[i] = pre[i])
  \cup Clause("C21.ids.positive", \A i \in DOMAIN pre : pre[i] = 0 => post[i] > 0)
  \cup Clause("C21.ids.duplicates", \A i, j \in DOMAIN pre : (pre[i] = 0 /\ i # j) => post[i] # post[j])
  \* a free position number is used, because it is what the plugins refer to
  \cup Clause("C21.ids.position", \A i \in DOMAIN pre : (pre[i] = 0 /\ i \notin Rng(pre)) => post[i] = i)

(* ---- morphing ------------------------------------------------------------- *)
(* The base moves towards the target; the other targets move along with it. *)
MorphList(doc, m, t, val) ==
  LET b == ObjOfName(doc, m.base) o == ObjOfName(doc, m.targets[t]) IN
  IF b = 0 \/ o = 0 THEN doc ELSE
  LET bv == doc.objs[b].verts tv == doc.objs[o].verts IN
  IF Len(bv) # Len(tv) THEN doc ELSE
  LET diff == [k \in DOMAIN bv |-> [i \in 1..3 |-> ((tv[k][i] - bv[k][i]) * val) \div 100]]
      mv == {b} \cup { ObjOfName(doc, m.targets[k]) : k \in { k \in DOMAIN m.targets : k # t } } IN
  [doc EXCEPT !.objs = [i \in DOMAIN doc.objs |->
     IF i \in mv /\ Len(doc.objs[i].verts) = Len(bv)
     THEN [doc.objs[i] EXCEPT !.verts = [k \in DOMAIN bv |-> [c \in 1..3 |-> doc.objs[i].verts[k][c] + diff[k][c]]]]
     ELSE doc.objs[i]]]
Hits(doc, name) == Flat([k \in DOMAIN doc.morphs |->
  [j \in 1..Cardinality({ t \in DOMAIN doc.morphs[k].targets : doc.morphs[k].targets[t] = name }) |->
     <<k, CHOOSE t \in DOMAIN doc.morphs[k].targets : doc.morphs[k].targets[t] = name>>]])
MorphAll(doc, name, val) == FoldLeft(LAMBDA d, h : MorphList(d, d.morphs[h[1]], h[2], val), doc, Hits(doc, name))
Applies(doc, h) == LET b == ObjOfName(doc, doc.morphs[h[1]].base) o == ObjOfName(doc, doc.morphs[h[1]].targets[h[2]]) IN
  b # 0 /\ o # 0 /\ Len(doc.objs[b].verts) = Len(doc.objs[o].verts)
(* Material morphs: "$MORPH:name:material" holds the colour to move to. *)
MatOf(doc, n) == LET S == { i \in DOMAIN doc.mats : doc.mats[i].name = n } IN IF S = {} THEN 0 ELSE Max(S)
MatMorph(doc, name, val) ==
  FoldLeft(LAMBDA ms, i :
     LET pre == "$MORPH:" \o name \o ":" n == ms[i].name IN
     IF ~HasPrefix(n, pre) THEN ms ELSE
     LET t == MatOf(doc, DropPrefix(n, pre)) IN
     IF t = 0 THEN ms ELSE
     [ms EXCEPT ![t].col = [c \in DOMAIN ms[t].col |-> (ms[t].col[c] * (100 - val) + ms[i].col[c] * val) \div 100]],
   doc.mats, [i \in DOMAIN doc.mats |-> i])
VertsClose(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : CloseV(a[k], b[k], tol)
MorphBroken(pre, post, name, val, ret) ==
  LET want == MorphAll(pre, name, val) mats == MatMorph(pre, name, val) IN
  Clause("C21.morph.vertices", Len(post.objs) = Len(want.objs) /\ \A i \in DOMAIN want.objs : VertsClose(post.objs[i].verts, want.objs[i].verts, 3))
  \cup Clause("C21.morph.faces", Len(post.objs) = Len(pre.objs) /\ \A i \in DOMAIN pre.objs : post.objs[i].faces = pre.objs[i].faces)
  \cup Clause("C21.morph.bones", post.bones = pre.bones)
  \cup Clause("C21.morph.materials", Len(post.mats) = Len(mats) /\ \A i \in DOMAIN mats : post.mats[i].name = mats[i].name /\ CloseV(post.mats[i].col, mats[i].col, 3))
  \cup Clause("C21.morph.result", ret = (\E k \in DOMAIN Hits(pre, name) : Applies(pre, Hits(pre, name)[k])))

(* ---- faces ---------------------------------------------------------------- *)
Corner(f, k) == <<f.v[k], IF f.uv = <<>> THEN <<>> ELSE f.uv[k], IF f.n = <<>> THEN <<>> ELSE f.n[k]>>
Corners(f) == [k \in DOMAIN f.v |-> Corner(f, k)]
Rotated(s, k) == [i \in DOMAIN s |-> s[((i + k - 2) % Len(s)) + 1]]
SameLoop(s, t) == Len(s) = Len(t) /\ (Len(s) = 0 \/ \E k \in 1..Len(s) : Rotated(s, k) = t)
FlipBroken(pre, post) ==
  Clause("C21.flip", SameLoop(Reverse(Corners(pre)), Corners(post)) /\ pre.m = post.m /\ pre.uid = post.uid)
(* Splitting: triangles stay; a polygon becomes n - 2 triangles of its corners. *)
TriBroken(pre, post) ==
  LET src == [g \in DOMAIN post |-> post[g].m + 1] IN
  Clause("C21.split.triangles", \A f \in DOMAIN post : Len(post[f].v) = 3)
  \cup Clause("C21.split.keep", \A f \in DOMAIN pre : Len(pre[f].v) = 3 =>
        \E g \in DOMAIN post : post[g] = pre[f])
  \cup (IF Len(src) # Len(post) THEN {"C21.split.count"} ELSE
   \* src[g]: the face triangle g was made from (the driver gives every face its own material)
   Clause("C21.split.count", \A f \in DOMAIN pre : Cardinality({ g \in DOMAIN src : src[g] = f }) = Max2(0, Len(pre[f].v) - 2))
   \cup Clause("C21.split.corners", \A g \in DOMAIN post : src[g] \in DOMAIN pre =>
         /\ Rng(Corners(post[g])) \subseteq Rng(Corners(pre[src[g]]))
         /\ Cardinality(Rng(post[g].v)) = 3
         /\ (post[g].uv = <<>>) = (pre[src[g]].uv = <<>>) /\ (post[g].n = <<>>) = (pre[src[g]].n = <<>>)))
(* Normals: given ones are kept; the others are the sum of the unit normals   *)
(* (or given normals) of the corners at the vertex; the side from which the  *)
(* corners run clockwise.  Exact for faces in axis planes.                    *)
SignOf(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
AxisUnit(c) == IF Cardinality({ i \in 1..3 : c[i] # 0 }) = 1 THEN [i \in 1..3 |-> 100 * SignOf(c[i])] ELSE <<>>
Div100(v) == [i \in 1..3 |-> v[i] \div 100]
CornerNormal(o, f, k) ==
  LET n == Len(f.v) IN
  IF Len(f.n) >= k /\ f.n[k] # <<>> THEN f.n[k] ELSE
  LET P(j) == Div100(o.verts[f.v[j]])
      a == P(((k + n - 2) % n) + 1) b == P((k % n) + 1) c == P(k) IN
  AxisUnit(Cross3([i \in 1..3 |-> a[i] - c[i]], [i \in 1..3 |-> b[i] - c[i]]))
VertNormals(o, v) ==
  Flat([f \in DOMAIN o.faces |-> Flat([k \in DOMAIN o.faces[f].v |-> IF o.faces[f].v[k] = v THEN <<CornerNormal(o, o.faces[f], k)>> ELSE <<>>])])
SumVec(s) == FoldLeft(LAMBDA a, b : [i \in 1..3 |-> a[i] + b[i]], <<0, 0, 0>>, s)
NormalFor(q, o, v) ==
  LET ns == VertNormals(o, v) IN
  \/ \E k \in DOMAIN ns : ns[k] = <<>>
  \/ LET s == SumVec(ns) IN
     \/ s = <<0, 0, 0>>
     \/ UnitN(q) /\ Dot3(q, s) > 0 /\ \A i \in 1..3 : Abs(Cross3(q, s)[i]) <= 3 * (Abs(s[1]) + Abs(s[2]) + Abs(s[3]))
NormalsBroken(pre, post) ==
  IF Len(pre.faces) # Len(post.faces) THEN {"C21.normals.faces"} ELSE
  LET Given(f, k) == Len(pre.faces[f].n) = Len(pre.faces[f].v) /\ pre.faces[f].n[k] # <<>> IN
  Clause("C21.normals.keep", \A f \in DOMAIN pre.faces :
     /\ pre.faces[f].v = post.faces[f].v /\ pre.faces[f].uv = post.faces[f].uv /\ pre.faces[f].m = post.faces[f].m
     /\ Len(post.faces[f].n) = Len(post.faces[f].v)
     /\ \A k \in DOMAIN pre.faces[f].v : Given(f, k) => post.faces[f].n[k] = pre.faces[f].n[k])
  \cup Clause("C21.normals.fill", \A f \in DOMAIN pre.faces :
     /\ Len(post.faces[f].n) = Len(post.faces[f].v)
     /\ \A k \in DOMAIN post.faces[f].v : ~Given(f, k) => post.faces[f].n[k] # <<>> /\ NormalFor(post.faces[f].n[k], pre, pre.faces[f].v[k]))
=============================================================================
