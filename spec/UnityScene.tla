----------------------------- MODULE UnityScene ------------------------------
(* C12.  Scene and prefab files: objects with a transform and components,     *)
(* children listed by their parent, and instances of other files' objects     *)
(* with modified properties, to which further objects may be attached.        *)
(* An object of a file is named by its key: <<id>>, or <<instance, key...>>.  *)
EXTENDS GltfView

(* files: identifier -> items, each [k |-> "obj", id, name, tag, act, pos,    *)
(* rot, scl, comps, parent, kids] or [k |-> "inst", id, src, parent, mods];   *)
(* parent is a key or <<>>; kids lists the items the file's parent names as   *)
(* its children.  Positions are whole thousandths, scales thousandths, rot    *)
(* quarter turns about x, y, z applied in the order z, x, y.                  *)
Item(F, g, id) == LET S == { i \in DOMAIN F[g] : F[g][i].id = id } IN IF S = {} THEN <<>> ELSE <<F[g][Min(S)]>>
ObjNode(it) == [key |-> <<it.id>>, name |-> it.name, tag |-> it.tag, act |-> it.act, pos |-> it.pos, rot |-> it.rot, scl |-> it.scl, comps |-> it.comps, kids |-> <<>>]

(* A modification [key, at, f, i, v]: at 0 is the object, -1 its transform,   *)
(* else the number of a component; f the field, i the entry, v the value.     *)
SetField(n, m) ==
  CASE m.at = 0 /\ m.f = "name" -> [n EXCEPT !.name = m.v]
    [] m.at = 0 /\ m.f = "tag" -> [n EXCEPT !.tag = m.v]
    [] m.at = 0 /\ m.f = "act" -> [n EXCEPT !.act = m.v]
    [] m.at = -1 /\ m.f = "pos" -> [n EXCEPT !.pos[m.i] = m.v]
    [] m.at = -1 /\ m.f = "scl" -> [n EXCEPT !.scl[m.i] = m.v]
    [] m.at = -1 /\ m.f = "rot" -> [n EXCEPT !.rot = m.v]
    [] m.f = "num" -> [n EXCEPT !.comps[m.at].nums[m.i] = m.v]
    [] m.f = "ref" -> [n EXCEPT !.comps[m.at].refs[m.i] = m.v]
    [] OTHER -> n
RECURSIVE Modified(_, _)
Modified(n, mods) == LET own == SelectSeq(mods, LAMBDA m : m.key = n.key)
                         r == FoldLeft(SetField, n, own) IN
  [r EXCEPT !.kids = [i \in DOMAIN n.kids |-> Modified(n.kids[i], mods)]]
RECURSIVE Below(_, _)
Below(n, id) == [n EXCEPT !.key = <<id>> \o @, !.kids = [i \in DOMAIN n.kids |-> Below(n.kids[i], id)]]

RECURSIVE Loaded(_, _, _), Made(_, _, _, _), Grown(_, _, _, _)
(* The roots of file g; files being loaded (up) are not loaded again inside. *)
Loaded(F, g, up) == TLCEval(Flat([i \in DOMAIN F[g] |-> IF F[g][i].k \in {"obj", "inst"} /\ F[g][i].parent = <<>> THEN Made(F, g, up, F[g][i]) ELSE <<>>]))
Made(F, g, up, it) ==
  IF it.k = "obj" THEN <<Grown(F, g, up, ObjNode(it))>>
  ELSE IF it.src \notin DOMAIN F \/ it.src \in up \cup {g} THEN <<>>
  ELSE LET r == Loaded(F, it.src, up \cup {g}) IN
       IF r = <<>> THEN <<>> ELSE <<Grown(F, g, up, Below(Modified(r[1], it.mods), it.id))>>
(* Children: those it has, those its file lists for it, those that name it. *)
Grown(F, g, up, n) ==
  LET it == IF Len(n.key) = 1 THEN Item(F, g, n.key[1]) ELSE <<>>
      listed == TLCEval(IF it # <<>> /\ it[1].k = "obj" THEN Flat([j \in DOMAIN it[1].kids |-> LET c == Item(F, g, it[1].kids[j]) IN IF c = <<>> THEN <<>> ELSE Made(F, g, up, c[1])]) ELSE <<>>)
      given == IF it # <<>> /\ it[1].k = "obj" THEN Rng(it[1].kids) ELSE {}
      others == TLCEval(Flat([i \in DOMAIN F[g] |-> IF F[g][i].k \in {"obj", "inst"} /\ F[g][i].parent = n.key /\ F[g][i].id \notin given THEN Made(F, g, up, F[g][i]) ELSE <<>>])) IN
  [n EXCEPT !.kids = TLCEval([i \in DOMAIN n.kids |-> Grown(F, g, up, n.kids[i])]) \o listed \o others]
Scene(F, g) == Loaded(F, g, {})

(* ---- placement: left handed files, right handed result (z mirrored) --------- *)
TurnOf(r) == MatMul(RotY(r[2]), MatMul(RotX(r[1]), RotZ(r[3])))
PlaceIn(n) == MatMul(MoveOf(n.pos), MatMul(TurnOf(n.rot), ScaleOf(n.scl)))
Flip == <<1000, 0, 0, 0, 0, 1000, 0, 0, 0, 0, -1000, 0, 0, 0, 0, 1>>
Mirrored(M) == MatMul(Flip, MatMul(M, Flip))

(* Every object once, parents before children: [depth, name, ..., world]. *)
(* far: the arithmetic of this specification is not exact that far out or in. *)
Far(M) == \E i \in 1..15 : Abs(M[i]) > (IF i > 12 THEN 60000 ELSE 10000) \/ (i < 12 /\ Abs(M[i]) \in 1..124)
RECURSIVE Listed(_, _, _, _)
Listed(n, d, M, up) == LET W == MatMul(M, PlaceIn(n)) far == up \/ Far(W) IN
  << [far |-> far, depth |-> d, name |-> n.name, tag |-> n.tag, act |-> n.act, comps |-> n.comps, world |-> Mirrored(W)] >>
  \o Flat([i \in DOMAIN n.kids |-> Listed(n.kids[i], d + 1, W, far)])
Walk(roots) == Flat([i \in DOMAIN roots |-> Listed(roots[i], 0, Ident, FALSE)])

SameWorld(a, b) == \A i \in 1..15 : Near(a[i], b[i], IF i > 12 THEN 3 ELSE 1)
(* What was loaded, against what the files describe. *)
SceneBroken(F, g, got) ==
  LET want == TLCEval(Walk(Scene(F, g))) IN
  IF Len(want) # Len(got) THEN {"C12.objects"} ELSE
  IF \E i \in DOMAIN want : want[i].name # got[i].name \/ want[i].depth # got[i].depth THEN {"C12.hierarchy"} ELSE
  Clause("C12.place", \A i \in DOMAIN want : want[i].far \/ SameWorld(want[i].world, got[i].world))
  \cup Clause("C12.state", \A i \in DOMAIN want : want[i].tag = got[i].tag /\ want[i].act = got[i].act)
  \cup Clause("C12.components", \A i \in DOMAIN want : want[i].comps = got[i].comps)
  \cup Clause("C12.links", \A i \in DOMAIN got : got[i].linked)
=============================================================================
