----------------------------- MODULE GltfEdit -------------------------------
(* C23.  Edits of a glTF file in place.  The state is what a viewer reads     *)
(* from the file; an edit may change it only as its rule says.                *)
EXTENDS GltfView

(* ---- what is drawn ------------------------------------------------------------- *)
JointMat(g, s, k) == MatMul(World(g, g.skins[s].joints[k]), IF g.skins[s].ibm = <<>> THEN Ident ELSE g.skins[s].ibm[k])
Blend(F, w) == [i \in 1..3 |-> RDiv(w[1] * F[1][i] + w[2] * F[2][i] + w[3] * F[3][i] + w[4] * F[4][i])]
(* The places of the joints, or of the node. *)
Frames(g, n) == LET s == g.nodes[n].skin IN TLCEval(IF s = 0 THEN <<World(g, n)>> ELSE [k \in DOMAIN g.skins[s].joints |-> JointMat(g, s, k)])
Posed(F, Op(_, _), rows, J, W) == IF J = <<>> THEN [v \in DOMAIN rows |-> Op(F[1], rows[v])] ELSE [v \in DOMAIN rows |-> Blend([k \in 1..4 |-> Op(F[J[v][k] + 1], rows[v])], W[v])]
DrawnPrim(F, skinned, q) == LET J == IF skinned THEN q.j ELSE <<>> IN TLCEval([pos |-> Posed(F, Place, q.pos, J, q.w), nrm |-> Posed(F, Turn, q.nrm, J, q.w), t |-> [i \in DOMAIN q.t |-> Posed(F, Turn, q.t[i].pos, J, q.w)]])
RelNear(a, b, rel, tol) == Len(a) = Len(b) /\ \A v \in DOMAIN a : Len(a[v]) = Len(b[v]) /\ \A i \in DOMAIN a[v] : Near(RDiv(a[v][i] * rel[i]), b[v][i], tol)
Alike == <<1000, 1000, 1000>>
(* Both files have the same drawing elements. *)
PrimParts(q) == <<q.mat, q.mode, q.idx, q.uv, q.j, q.w, Len(q.pos), Len(q.nrm), Len(q.t)>>
MeshParts(h) == <<h.name, h.names, [i \in DOMAIN h.prims |-> PrimParts(h.prims[i])]>>
MatParts(m) == <<m.name, m.col, m.met, m.rou, m.dbl, m.emi, m.am, m.cut, m.unl, m.tex.file>>
NodeParts(n) == <<n.name, n.ch, n.mesh, n.skin>>
SameParts(g, h) ==
  /\ [i \in DOMAIN g.nodes |-> NodeParts(g.nodes[i])] = [i \in DOMAIN h.nodes |-> NodeParts(h.nodes[i])] /\ g.roots = h.roots
  /\ [i \in DOMAIN g.meshes |-> MeshParts(g.meshes[i])] = [i \in DOMAIN h.meshes |-> MeshParts(h.meshes[i])]
  /\ [i \in DOMAIN g.skins |-> g.skins[i].joints] = [i \in DOMAIN h.skins |-> h.skins[i].joints]
  /\ [i \in DOMAIN g.mats |-> MatParts(g.mats[i])] = [i \in DOMAIN h.mats |-> MatParts(h.mats[i])]
SameDrawing(g, h, rel, normals) == \A n \in { n \in DOMAIN g.nodes : g.nodes[n].mesh # 0 } :
  LET F == Frames(g, n) G == Frames(h, n) k == g.nodes[n].skin # 0 IN
  \A i \in DOMAIN g.meshes[g.nodes[n].mesh].prims :
  LET a == DrawnPrim(F, k, g.meshes[g.nodes[n].mesh].prims[i]) b == DrawnPrim(G, k, h.meshes[h.nodes[n].mesh].prims[i]) IN
  /\ RelNear(a.pos, b.pos, rel, 3)
  /\ (normals => RelNear(a.nrm, b.nrm, Alike, 5))
  /\ \A t \in DOMAIN a.t : RelNear(a.t[t], b.t[t], rel, 3)
SamePlaces(g, h, rel) == \A n \in DOMAIN g.nodes : LET a == World(g, n) b == World(h, n) IN \A i \in 1..3 : Near(RDiv(a[12 + i] * rel[i]), b[12 + i], 3)
SameMotion(g, h, rel) == Len(g.anims) = Len(h.anims) /\ \A i \in DOMAIN g.anims : LET a == g.anims[i] b == h.anims[i] IN
  a.node = b.node /\ a.path = b.path /\ a.mode = b.mode /\ a.keys = b.keys /\
  IF a.path = "translation" THEN RelNear(a.vals, b.vals, rel, 1) ELSE a.vals = b.vals
StoredOk(g) == /\ RangesOk(g)
  /\ \A m \in DOMAIN g.meshes : \A i \in DOMAIN g.meshes[m].prims : LET q == g.meshes[m].prims[i] IN BoundsOk(q.pos, q.mm, 2) /\ \A t \in DOMAIN q.t : BoundsOk(q.t[t].pos, q.t[t].mm, 2)

(* ---- the edits ----------------------------------------------------------------- *)
NoTurn(m) == \A i \in {2, 3, 5, 7, 9, 10} : Near(m[i], 0, 1)
GoalOk(ev, g, h) ==
  CASE ev.op = "reset" -> \A n \in DOMAIN h.nodes : h.nodes[n].mesh = 0 => NoTurn(h.nodes[n].m) /\ \A i \in {1, 6, 11} : h.nodes[n].m[i] > 0
    [] ev.op = "joints" -> h.jbytes = 0
    [] ev.op = "embed" -> h.uris = <<>> /\ Len(h.bufs) <= 1 /\ Rng(h.imgs) \cap {"a.png", "tex/b.png"} = {}
    [] ev.op = "drop" -> h.xnode = SelectSeq(g.xnode, LAMBDA x : x # ev.ext)
    [] OTHER -> TRUE
EditBroken(ev, g, h) ==
  IF ~StoredOk(h) THEN {"C23.stored." \o ev.op} ELSE
  IF ~SameParts(g, h) THEN {"C23.parts." \o ev.op} ELSE
  LET rel == IF ev.op = "scale" THEN ev.rel ELSE Alike even == ev.op # "scale" \/ ev.even IN
  Clause("C23.drawing." \o ev.op, SameDrawing(g, h, rel, even))
  \cup Clause("C23.places." \o ev.op, SamePlaces(g, h, rel))
  \cup Clause("C23.motion." \o ev.op, ev.op = "reset" \/ SameMotion(g, h, rel))
  \cup Clause("C23.goal." \o ev.op, GoalOk(ev, g, h))
=============================================================================
