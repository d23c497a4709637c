----------------------------- MODULE GltfToMqo ------------------------------
(* C09.  What a glTF file draws and what the imported document must draw.     *)
EXTENDS GltfView

MeshNodes(g) == { n \in DOMAIN g.nodes : g.nodes[n].mesh # 0 }
(* Faces <<material, loop>>, seen from the front clockwise as MQO wants them. *)
Imported(g, n) ==
  LET N == g.nodes[n] M == IF N.skin # 0 THEN Ident ELSE World(g, n) H == g.meshes[N.mesh] mirrored == DetSign(M) < 0 IN
  Flat([i \in DOMAIN H.prims |-> LET q == H.prims[i] T == TriIdx(q)
     C == TLCEval([v \in Rng(q.idx) |-> [p |-> Place(M, q.pos[v + 1]), uv |-> IF q.uv = <<>> THEN <<0, 0>> ELSE q.uv[v + 1]]]) IN
     [t \in DOMAIN T |-> <<q.mat, IF mirrored THEN <<C[T[t][1]], C[T[t][2]], C[T[t][3]]>> ELSE <<C[T[t][1]], C[T[t][3]], C[T[t][2]]>>>>]])
ObjFaces(o) == [f \in DOMAIN o.faces |-> <<o.faces[f].m, [k \in DOMAIN o.faces[f].v |-> [p |-> o.verts[o.faces[f].v[k]], uv |-> UvAt(o.faces[f], k)]]>>]
FacesValid(d) == \A i \in DOMAIN d.objs : \A f \in DOMAIN d.objs[i].faces : LET F == d.objs[i].faces[f] IN
  (\A k \in DOMAIN F.v : F.v[k] \in 1..Len(d.objs[i].verts)) /\ F.m >= -1 /\ F.m < Len(d.mats) /\ Len(F.uv) \in {0, Len(F.v)}
Listed(S) == SetToSortSeq(S, <)
AlphaNo(a) == CASE a = "OPAQUE" -> 1 [] a = "MASK" -> 2 [] OTHER -> 3
MatKept(a, b) == b.name = a.name /\ b.col = a.col /\ b.dbl = a.dbl /\ b.ec = a.emi /\ b.shd = "glTF" /\ b.met = a.met /\ b.rou = a.rou
TexKept(a, b) == b.tex = a.tex.file
AlphaKept(a, b) == b.am = AlphaNo(a.am) /\ (a.am = "MASK" => b.cut = a.cut)

(* ---- the skeleton -------------------------------------------------------------- *)
Joints(g) == UNION { Rng(g.skins[s].joints) : s \in DOMAIN g.skins }
BoneNamed(d, n) == LET S == { b \in DOMAIN d.bones : d.bones[b].name = n } IN IF Cardinality(S) = 1 THEN CHOOSE b \in S : TRUE ELSE 0
BonesKept(g, d) ==
  /\ \A b, c \in DOMAIN d.bones : b # c => d.bones[b].id # d.bones[c].id
  /\ \A j \in Joints(g) : BoneNamed(d, g.nodes[j].name) # 0
  /\ \A b \in DOMAIN d.bones : LET n == NodeNamed(g, d.bones[b].name) IN n # 0 /\ BoneNamed(d, d.bones[b].name) = b
BoneParentKept(g, d, b) ==
  LET n == NodeNamed(g, d.bones[b].name) p == ParentOf(g, n) pb == IF p = 0 THEN 0 ELSE BoneNamed(d, g.nodes[p].name) IN
  d.bones[b].parent = (IF pb = 0 THEN 0 ELSE d.bones[pb].id)
BonePlaceKept(g, d, b) == LET w == World(g, NodeNamed(g, d.bones[b].name)) IN \A i \in 1..3 : Near(d.bones[b].pos[i], w[12 + i], 1)

ImportBroken(g, d) ==
  IF ~FacesValid(d) THEN {"C09.valid"} ELSE
  LET A == Flat([i \in 1..Cardinality(MeshNodes(g)) |-> Imported(g, Listed(MeshNodes(g))[i])]) B == Flat([i \in DOMAIN d.objs |-> ObjFaces(d.objs[i])]) IN
  (IF ~SameSoup(Look(A, LAMBDA c : c.p), Look(B, LAMBDA c : c.p)) THEN {"C09.faces"} ELSE Clause("C09.uv", SameSoup(A, B)))
  \cup Clause("C09.objects", Len(d.objs) = Cardinality(MeshNodes(g)) /\ \A i \in DOMAIN d.objs : d.objs[i].vis)
  \cup Clause("C09.materials", Len(d.mats) = Len(g.mats) /\ \A i \in DOMAIN g.mats : MatKept(g.mats[i], d.mats[i]))
  \cup Clause("C09.textures", Len(d.mats) = Len(g.mats) => \A i \in DOMAIN g.mats : TexKept(g.mats[i], d.mats[i]))
  \cup Clause("C09.alpha", Len(d.mats) = Len(g.mats) => \A i \in DOMAIN g.mats : AlphaKept(g.mats[i], d.mats[i]))
  \cup (IF ~BonesKept(g, d) THEN {"C09.bones"} ELSE
        Clause("C09.parents", \A b \in DOMAIN d.bones : BoneParentKept(g, d, b)) \cup Clause("C09.places", \A b \in DOMAIN d.bones : BonePlaceKept(g, d, b)))
=============================================================================
