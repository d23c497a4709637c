----------------------------- MODULE GltfExtras -----------------------------
(* What an MQO document's glTF shaders, lights and rigid bodies become in a  *)
(* glTF file.  Sizes and places are thousandths of the document's units,     *)
(* nodes are numbered from 1 and matrices are those of GltfView.             *)
EXTENDS GltfView

(* ---- materials -------------------------------------------------------------- *)
Ext(n, sw, nums, cols, maps) == [n |-> "KHR_materials_" \o n, sw |-> "Extensions." \o sw, nums |-> nums, cols |-> cols, maps |-> maps]
E(k) == "Extensions." \o k
Exts == {
  Ext("specular", "SpecularExt", {<<E("SpecularFactor"), "specularFactor">>}, {<<E("SpecularColorFactor"), "specularColorFactor">>},
      {<<"Specular", "specularTexture">>, <<"SpecularColor", "specularColorTexture">>}),
  Ext("clearcoat", "Clearcoat", {<<E("ClearcoatFactor"), "clearcoatFactor">>, <<E("ClearcoatRoughnessFactor"), "clearcoatRoughnessFactor">>}, {},
      {<<"Clearcoat", "clearcoatTexture">>, <<"ClearcoatRoughness", "clearcoatRoughnessTexture">>, <<"ClearcoatNormal", "clearcoatNormalTexture">>}),
  Ext("sheen", "Sheen", {<<E("SheenRoughnessFactor"), "sheenRoughnessFactor">>}, {<<E("SheenColorFactor"), "sheenColorFactor">>},
      {<<"SheenColor", "sheenColorTexture">>, <<"SheenRoughness", "sheenRoughnessTexture">>}),
  Ext("ior", "IorExt", {<<E("Ior"), "ior">>}, {}, {}),
  Ext("volume", "Volume", {<<E("ThicknessFactor"), "thicknessFactor">>, <<E("AttenuationDistance"), "attenuationDistance">>}, {<<E("AttenuationColor"), "attenuationColor">>},
      {<<"Thickness", "thicknessTexture">>}),
  Ext("transmission", "Transmission", {<<E("TransmissionFactor"), "transmissionFactor">>}, {}, {<<"Transmission", "transmissionTexture">>}) }
UnlitName == "KHR_materials_unlit"
NumOf(m, k) == LET S == { i \in DOMAIN m.nums : m.nums[i].k = k } IN IF S = {} THEN 0 ELSE m.nums[CHOOSE i \in S : TRUE].v
ColOf(m, k) == LET S == { i \in DOMAIN m.cols : m.cols[i].k = k } IN IF S = {} THEN <<>> ELSE SubSeq(m.cols[CHOOSE i \in S : TRUE].v, 1, 3)
FileOf(m, k) == LET S == { i \in DOMAIN m.maps : m.maps[i].k = k } IN IF S = {} THEN "" ELSE m.maps[CHOOSE i \in S : TRUE].f
IsGltf(m) == m.shd = "glTF"
Switched(m) == IF IsGltf(m) THEN { e \in Exts : e.sw \in Rng(m.on) } ELSE {}
Unlit(c, m) == c.unlit \/ m.shd = "Constant" \/ (IsGltf(m) /\ (E("Unlit") \in Rng(m.on) \/ (NumOf(m, "Metallic") = 0 /\ NumOf(m, "Roughness") = 1000)))
WantNames(c, m) == { e.n : e \in Switched(m) } \cup (IF Unlit(c, m) THEN {UnlitName} ELSE {})
\* numbers that are 0 may be left out
WantNums(m, e) == { <<p[2], NumOf(m, p[1])>> : p \in e.nums } \ { <<p[2], 0>> : p \in e.nums }
WantCols(m, e) == { x \in { <<p[2], ColOf(m, p[1])>> : p \in e.cols } : x[2] # <<>> }
WantTexs(m, e, pics) == { x \in { <<p[2], FileOf(m, p[1])>> : p \in e.maps } : x[2] \in Rng(pics) }
KeyVal(s) == { <<s[i].k, s[i].v>> : i \in DOMAIN s }
Numbers(s) == { x \in KeyVal(s) : x[2] # 0 }
ExtOk(m, e, x, pics) ==
  /\ Numbers(x.nums) = WantNums(m, e)
  /\ KeyVal(x.cols) = WantCols(m, e)
  /\ { <<x.texs[i].k, x.texs[i].f>> : i \in DOMAIN x.texs } = WantTexs(m, e, pics)
  /\ x.odd = 0
ExtsOk(c, m, v, pics) ==
  /\ { v.exts[i].name : i \in DOMAIN v.exts } = WantNames(c, m)
  /\ \A i \in DOMAIN v.exts : \A e \in Switched(m) : v.exts[i].name = e.n => ExtOk(m, e, v.exts[i], pics)

(* ---- objects ---------------------------------------------------------------- *)
HasMesh(o) == o.verts # <<>>
Exported(c, i) == ~c.flat \/ (c.objs[i].vis /\ HasMesh(c.objs[i]))
Drawn(c) == { i \in DOMAIN c.objs : Exported(c, i) /\ c.objs[i].vis /\ HasMesh(c.objs[i]) }
UsedMats(c) == { c.objs[i].mat + 1 : i \in Drawn(c) }
Lit(c) == IF c.lights THEN { i \in DOMAIN c.objs : Exported(c, i) /\ c.objs[i].vis /\ c.objs[i].light # <<>> } ELSE {}
\* the place of an object: a signed permutation, a scale and a move
MatrixOf(t) == [k \in 1..16 |-> LET c == ((k - 1) \div 4) + 1 r == ((k - 1) % 4) + 1 IN
  IF c = 4 THEN (IF r = 4 THEN 1 ELSE t.t[r]) ELSE IF r = 4 THEN 0 ELSE t.r[r][c] * t.s[c]]
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
SamePlace(a, b) == \A i \in 1..15 : Near(a[i], b[i], 3)
Lights(g) == { n \in DOMAIN g.xnodes : g.xnodes[n].light # <<>> }
LightsOk(c, g) ==
  /\ Cardinality(Lights(g)) = Cardinality(Lit(c))
  /\ \A i \in Lit(c) : \E n \in Lights(g) : g.xnodes[n].light = c.objs[i].light
LightsPlaced(c, g) == \A i \in Lit(c) : c.objs[i].at # <<>> =>
  \E n \in Lights(g) : g.xnodes[n].light = c.objs[i].light /\ SamePlace(World(g, n), MatrixOf(c.objs[i].at[1]))
\* nothing drawn moves
Corners(g, n) == LET N == g.nodes[n] M == World(g, n) IN
  UNION { { Place(M, q.pos[k]) : k \in DOMAIN q.pos } : q \in Rng(g.meshes[N.mesh].prims) }
DrawnOk(c, g) ==
  /\ Cardinality({ n \in DOMAIN g.nodes : g.nodes[n].mesh # 0 }) = Cardinality(Drawn(c))
  /\ \A i \in Drawn(c) : \E n \in DOMAIN g.nodes : /\ g.nodes[n].mesh # 0 /\ g.nodes[n].name = c.objs[i].name
       /\ \A w \in Rng(c.objs[i].verts) : \E p \in Corners(g, n) : NearSeq(p, w, 3)
       /\ \A x \in Corners(g, n) : \E y \in Rng(c.objs[i].verts) : NearSeq(x, y, 3)

(* ---- bodies ----------------------------------------------------------------- *)
Solid(c) == { i \in DOMAIN c.bodies : c.bodies[i].shapes # <<>> }
OnBone(c, b) == IF c.physics THEN { i \in Solid(c) : c.bodies[i].bone = c.bones[b].id } ELSE {}
OnObj(c, o) == IF c.physics /\ Exported(c, o) THEN { i \in Solid(c) : c.bodies[i].obj = o } ELSE {}
RECURSIVE MassOf(_, _)
MassOf(c, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN c.bodies[i].mass + MassOf(c, S \ {i})
RECURSIVE ShapeCount(_, _)
ShapeCount(c, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Len(c.bodies[i].shapes) + ShapeCount(c, S \ {i})
AllShapes(c, S) == UNION { Rng(c.bodies[i].shapes) : i \in S }
SameShape(g, n, a, s) == a.type = s.type /\ NearSeq(a.size, s.size, 2) /\ NearSeq(Place(World(g, n), a.pos), s.pos, 4)
BodyOk(c, g, n, S) == LET P == g.xnodes[n].phys IN
  IF S = {} THEN P = <<>> ELSE
  /\ Len(P) = 1
  /\ Len(P[1].shapes) = ShapeCount(c, S)
  /\ \A s \in AllShapes(c, S) : \E k \in DOMAIN P[1].shapes : SameShape(g, n, P[1].shapes[k], s) /\ NearSeq(P[1].boxes[k], s.size, 2)
  /\ \A k \in DOMAIN P[1].shapes : \E s \in AllShapes(c, S) : SameShape(g, n, P[1].shapes[k], s)
  /\ P[1].mass = MassOf(c, S)
  /\ P[1].static = (\E i \in S : c.bodies[i].kin)
  /\ Cardinality(S) = 1 => LET b == c.bodies[CHOOSE i \in S : TRUE] IN P[1].group = b.group /\ P[1].mask = b.mask
NodesNamed(g, nm) == { n \in DOMAIN g.nodes : g.nodes[n].name = nm }
Bearing(g) == { n \in DOMAIN g.xnodes : g.xnodes[n].phys # <<>> }
\* of the nodes of one object (the light may have its own) one bears the bodies
BodiesOk(c, g) ==
  /\ \A b \in DOMAIN c.bones : \E n \in NodesNamed(g, c.bones[b].name) : BodyOk(c, g, n, OnBone(c, b))
  /\ \A o \in DOMAIN c.objs : Exported(c, o) => \E n \in NodesNamed(g, c.objs[o].name) : BodyOk(c, g, n, OnObj(c, o))
  /\ Cardinality(Bearing(g)) = Cardinality({ b \in DOMAIN c.bones : OnBone(c, b) # {} }) + Cardinality({ o \in DOMAIN c.objs : OnObj(c, o) # {} })

InUse(g) == UNION { { v.exts[i].name : i \in DOMAIN v.exts } : v \in Rng(g.xmats) }
  \cup (IF Lights(g) # {} THEN {"KHR_lights_punctual"} ELSE {}) \cup (IF Bearing(g) # {} THEN {"BLENDER_physics"} ELSE {}) \cup Rng(g.xdoc)

ExtrasBroken(c, pics, g) ==
  Clause("C25.refs", g.refs = <<>> /\ TreeOk(g))
  \cup Clause("C25.materials", { g.xmats[i].name : i \in DOMAIN g.xmats } = { c.mats[m].name : m \in UsedMats(c) } /\ Len(g.xmats) = Cardinality(UsedMats(c)))
  \cup Clause("C25.shader", \A i \in DOMAIN g.xmats : \A m \in UsedMats(c) : c.mats[m].name = g.xmats[i].name => ExtsOk(c, c.mats[m], g.xmats[i], pics))
  \cup Clause("C25.lights", LightsOk(c, g))
  \cup Clause("C25.lightplace", LightsPlaced(c, g))
  \cup Clause("C25.drawn", DrawnOk(c, g))
  \cup Clause("C25.bodies", BodiesOk(c, g))
  \cup Clause("C25.used", InUse(g) \subseteq Rng(g.ext))
=============================================================================
