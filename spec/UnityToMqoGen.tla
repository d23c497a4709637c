--------------------------- MODULE UnityToMqoGen -----------------------------
(* A parent and an object in it, with every combination of mesh, collider,    *)
(* turn, size, activity and options.                                          *)
EXTENDS UnityToMqo, Json
CONSTANTS Rich
VARIABLES S
B(id) == "0000000000000000e000000000000000:" \o id
Meshes == << [key |-> B("10202"), kind |-> "Cube"], [key |-> B("10210"), kind |-> "Quad"], [key |-> B("10209"), kind |-> "Plane"], [key |-> B("10207"), kind |-> "Sphere"],
  [key |-> B("10206"), kind |-> "Cylinder"], [key |-> B("10208"), kind |-> "Capsule"],
  [key |-> "00000000000000000000000000004631:4300000", kind |-> "fbx", name |-> "M1", ext |-> ".fbx", unit |-> 100,
   polys |-> << [slot |-> 0, v |-> << <<0, 0, 0>>, <<1000, 0, 0>>, <<0, 1000, 500>> >>] >>] >>
MatT(k, tile, tex) == [key |-> "0000000000000000000000000000000" \o k \o ":2100000", file |-> TRUE, name |-> "mat" \o k, col |-> <<250, 500, 750, 1000>>, emi |-> IF k = "1" THEN <<500, 0, 0>> ELSE <<0, 0, 0>>,
  tex |-> tex, bump |-> "", texname |-> "", bumpname |-> "", tile |-> tile]
C0(t, nums, refs) == [t |-> t, nums |-> nums, refs |-> refs]
M1 == "00000000000000000000000000000001:2100000"
M2 == "00000000000000000000000000000002:2100000"
Draw(i, on, refs) == IF i = 0 THEN <<>> ELSE << C0("MF", <<>>, <<IF i > 7 THEN "" ELSE Meshes[i].key>>), C0("MR", <<on>>, refs) >>
Collide(k) == CASE k = 0 -> <<>> [] k = 1 -> << C0("BX", <<0, 1000, 500, 250, 1000, 2000, 3000>>, <<>>) >>
  [] k = 2 -> << C0("SP", <<0, 0, 500, 250, 750>>, <<>>), C0("RB", <<2000, 250, 500, 1, 0>>, <<>>) >>
  [] k = 3 -> << C0("CP", <<0, 0, 0, 1000, 500, 0, 3000>>, <<>>) >> [] k = 4 -> << C0("CP", <<0, 0, 0, 1000, 500, 2, 500>>, <<>>), C0("RB", <<2000, 250, 500, 1, 1>>, <<>>) >>
  [] k = 5 -> << C0("MC", <<1, 0>>, <<Meshes[1].key>>), C0("BX", <<0, 0, 0, 0, 1000, 1000, 1000>>, <<>>) >> [] k = 6 -> << C0("MC", <<1, 0>>, <<Meshes[4].key>>) >>
  [] k = 7 -> << C0("MC", <<1, 0>>, <<"-">>), C0("MC", <<1, 0>>, <<Meshes[2].key>>) >> [] OTHER -> << C0("LT", <<1, 250, 500, 1000, 2000, 5000, 750>>, <<>>) >>
Obj(id, act, rot, scl, comps, parent, kids) == [k |-> "obj", id |-> id, name |-> "n" \o ToString(id), tag |-> "Untagged", act |-> act, pos |-> <<1000 * id, 2000, -500>>, rot |-> rot, scl |-> scl, comps |-> comps, parent |-> parent, kids |-> kids]
Rots == { <<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 3>>, <<3, 2, 1>> }
Scls == { <<1000, 1000, 1000>>, <<-1000, 1000, 1000>>, <<1000, 2000, 500>>, <<-2000, -2000, -2000>> }
Init == \E i \in 0..8, on \in {0, 1}, act \in {0, 1}, k \in 0..8, rot \in Rots, scl \in Scls, prot \in (IF Rich THEN { <<0, 0, 0>>, <<0, 1, 0>>, <<3, 0, 1>> } ELSE { <<0, 1, 0>> }), ps \in { <<1000, 1000, 1000>>, <<1000, 1000, -1000>> }, pact \in {0, 1}, phys \in BOOLEAN :
   /\ (i = 0 => on = 1) /\ (k # 0 => i \in {0, 1}) /\ (pact = 0 => act = 1 /\ k = 0) /\ (~phys => k \in {0, 1}) /\ (i > 3 /\ i < 7 => act = 1 /\ on = 1)
   /\ S = [ meshes |-> Meshes, mats |-> << MatT("1", <<1, 1>>, ""), MatT("2", <<2, 3>>, "") >>, phys |-> phys, save |-> FALSE, scale |-> IF phys THEN 0 ELSE 2, texs |-> <<>>,
            files |-> << [g |-> "A", items |-> << Obj(1, pact, prot, ps, Draw(IF k = 0 THEN 1 ELSE 0, 1, <<M1>>), <<>>, <<2>>), Obj(2, act, rot, scl, Draw(i, on, IF i \in {2, 3, 5} THEN <<M2, M1>> ELSE <<M1>>) \o Collide(k), <<1>>, <<>>) >>] >> ]
Next == FALSE /\ UNCHANGED S
Spec == Init /\ [][Next]_S

(* ---- the design --------------------------------------------------------------- *)
Vol(F) == \* six times the signed volume, in cubic tenths
  SumSeq([i \in DOMAIN F |-> SumSeq([k \in 1..(Len(F[i]) - 2) |->
     LET T(p) == [x \in 1..3 |-> p[x] \div 100] a == T(F[i][1]) n == CrossOf(T(F[i][k + 1]), T(F[i][k + 2])) IN a[1] * n[1] + a[2] * n[2] + a[3] * n[3]])])
(* A placed cube is closed and never inside out. *)
Solid(P) == \A i \in DOMAIN P.objs : P.objs[i].kind = "Cube" /\ ~P.nodes[P.objs[i].src].far =>
   LET F == [q \in 1..6 |-> PlacedLoop(P.nodes[P.objs[i].src].world, CubeLoops[q])] IN ClosedUp([q \in 1..6 |-> [v |-> F[q]]]) /\ Vol(F) < 0
(* Each drawn thing once; what cannot be seen is not marked visible. *)
OneEach(P) == Cardinality({ i \in DOMAIN P.objs : P.objs[i].kind # "" }) = Cardinality({ i \in DOMAIN P.nodes : MeshIn(S, P.nodes[i]) # <<>> })
Hidden(P) == \A i \in DOMAIN P.objs : P.objs[i].vis => \A k \in 1..P.objs[i].src : P.nodes[k].depth < P.nodes[P.objs[i].src].depth /\ (\A q \in k..P.objs[i].src : q = k \/ P.nodes[q].depth > P.nodes[k].depth) => P.nodes[k].act # 0
(* A mesh collider of the built-in cube is the box collider of its size. *)
SameBox(P) == LET b == BodyPlan(S, P) IN \A i \in DOMAIN b : \A x, y \in DOMAIN b[i].shapes : b[i].shapes[x].t = "BOX" /\ b[i].shapes[y].t = "BOX" => b[i].shapes[x] = b[i].shapes[y]
(* Undoing a placement gives the point back. *)
Undo(P) == \A i \in DOMAIN P.nodes : P.nodes[i].far \/ \A p \in { <<500, -500, 250>>, <<0, 1000, 0>> } : NearPt(Unplace(P.nodes[i].world, Place(P.nodes[i].world, p)), p, 2)
Laws == LET P == TLCEval(Plan(S)) IN Solid(P) /\ OneEach(P) /\ Hidden(P) /\ SameBox(P) /\ Undo(P)
Emit == PrintT("CASE " \o ToJson(S))
=============================================================================
