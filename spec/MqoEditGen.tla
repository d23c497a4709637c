----------------------------- MODULE MqoEditGen ----------------------------
(* Bounded model of the editor.  Families: forests of objects with frames,   *)
(* skeletons in any list order, names, identifiers, morphs.  Every history   *)
(* of at most two operations is a case for the real code; the laws of the    *)
(* specification are invariants.                                             *)
EXTENDS MqoEdit, Json
VARIABLES fam, doc, ops
NoG == [e |-> <<1, 1, 1>>, ord |-> 1, s |-> <<1, 1, 1>>, t |-> <<0, 0, 0>>]
Frames == << [e |-> <<4, 1, 1>>, ord |-> 1, s |-> <<1, 1, 1>>, t |-> <<1, 0, 0>>],
             [e |-> <<1, 2, 1>>, ord |-> 1, s |-> <<2, 2, 2>>, t |-> <<0, -1, 2>>],
             [e |-> <<10, 4, 7>>, ord |-> 1, s |-> <<1, 1, 1>>, t |-> <<2, 1, 0>>],
             [e |-> <<3, 5, 2>>, ord |-> 1, s |-> <<1, 1, 1>>, t |-> <<0, 0, 3>>] >>
Moves == { [e |-> <<1, 1, 1>>, ord |-> 1, s |-> <<2, 2, 2>>, t |-> <<0, 0, 0>>],
           [e |-> <<1, 7, 1>>, ord |-> 0, s |-> <<1, 1, 1>>, t |-> <<0, 0, 0>>],
           [e |-> <<2, 1, 10>>, ord |-> 2, s |-> <<1, 1, 1>>, t |-> <<3, -2, 1>>] }
Box == << <<0, 0, 0>>, <<2, 0, 0>>, <<0, 3, 0>>, <<2, 3, 0>> >>
Shift(vs, d) == [k \in DOMAIN vs |-> [i \in 1..3 |-> vs[k][i] + d[i]]]
Obj(n, u, d, vs, g) == [name |-> n, uid |-> u, depth |-> d, verts |-> vs, faces |-> <<>>, g |-> g, it |-> <<>>, uids |-> <<>>]
Empty == [objs |-> <<>>, bones |-> <<>>, morphs |-> <<>>, bodies |-> <<>>, joints |-> <<>>, mats |-> <<>>]
TreeDocs == { [Empty EXCEPT !.objs = [i \in 1..n |-> Obj(<<"a", "b", "c", "d">>[i], i, dd[i], Box, Frames[i])]] :
               n \in {2, 3, 4}, dd \in { f \in [1..4 -> 0..2] : f[1] = 0 } }
(* All forests of three or four bones, listed in any order. *)
Acyclic(p, n) == \A i \in 1..n : LET RECURSIVE up(_, _)
                                     up(k, c) == IF p[k] = 0 THEN TRUE ELSE IF c = 0 THEN FALSE ELSE up(p[k], c - 1) IN up(i, n)
BonePos == << <<0, 0, 0>>, <<3, 4, 0>>, <<1, 1, 1>>, <<-2, 0, 2>> >>
Wts == << << [obj |-> 5, vert |-> 1, w |-> 100], [obj |-> 5, vert |-> 2, w |-> 25] >>, << [obj |-> 5, vert |-> 2, w |-> 75], [obj |-> 9, vert |-> 1, w |-> 50] >>,
          << [obj |-> 5, vert |-> 3, w |-> 100], [obj |-> 5, vert |-> 9, w |-> 100] >>, << [obj |-> 9, vert |-> 4, w |-> 100], [obj |-> 77, vert |-> 1, w |-> 100] >> >>
BoneDocs == { [Empty EXCEPT
    !.objs = << Obj("base", 5, 0, Box, NoG), Obj("t", 6, 0, Shift(Box, <<1, 0, 0>>), NoG), Obj("x", 9, 0, Box, NoG), Obj("short", 4, 0, << <<1, 1, 1>> >>, NoG) >>,
    !.bones = [i \in 1..n |-> [id |-> i, parent |-> pp[i], pos |-> BonePos[i], w |-> Wts[i]]],
    !.morphs = << [base |-> "base", targets |-> <<"t", "short", "missing">>] >>,
    !.bodies = << [bone |-> 1, pos |-> <<1, 2, 3>>, size |-> <<1, 2, 3>>], [bone |-> n, pos |-> <<0, 1, 0>>, size |-> <<1, 1, 1>>], [bone |-> 0, pos |-> <<1, 0, 0>>, size |-> <<2, 1, 1>>] >>,
    !.joints = << <<1, 2, 3>> >>] : n \in {3, 4}, pp \in { f \in [1..4 -> 0..4] : TRUE } }
BoneOk(d) == LET n == Len(d.bones) p == [i \in 1..n |-> d.bones[i].parent] IN (\A i \in 1..n : p[i] <= n) /\ Acyclic(p, n)
Names == {"a", "a_2", "a_3", "b"}
NameDocs == { [Empty EXCEPT !.objs = [i \in 1..n |-> Obj(f[i], i, 0, <<>>, NoG)], !.mats = [i \in 1..n |-> [name |-> f[n + 1 - i], col |-> <<0, 0, 0, 0>>]]] :
               n \in 1..4, f \in [1..4 -> Names] }
IdDocs == { [Empty EXCEPT !.objs = [i \in 1..n |-> Obj("a", f[i], 0, <<>>, NoG)]] : n \in 1..4, f \in [1..4 -> 0..4] }
MorphDocs == { [Empty EXCEPT
     !.objs = << Obj("base", 1, 0, Box, NoG), Obj("t1", 2, 0, Shift(Box, <<4, 0, 0>>), NoG), Obj("t2", 3, 0, Shift(Box, <<0, -4, 8>>), NoG), Obj("odd", 4, 0, <<>>, NoG) >>,
     !.morphs = ms,
     !.mats = << [name |-> "m", col |-> <<0, 0, 0, 100>>], [name |-> "$MORPH:t1:m", col |-> <<100, 20, 0, 0>>], [name |-> "$MORPH:t2:none", col |-> <<0, 0, 0, 0>>] >>] :
     ms \in { << [base |-> "base", targets |-> <<"t1">>] >>, << [base |-> "base", targets |-> <<"t1", "t2", "odd">>] >>, << [base |-> "base", targets |-> <<"t2", "missing", "t1">>] >>,
              << [base |-> "none", targets |-> <<"t1", "t2">>] >>, << [base |-> "base", targets |-> <<"t1">>], [base |-> "t2", targets |-> <<"t1">>] >> } }
Init == \/ fam = "tree" /\ doc \in TreeDocs /\ ops = <<>>
        \/ fam = "bone" /\ doc \in BoneDocs /\ BoneOk(doc) /\ ops = <<>>
        \/ fam = "name" /\ doc \in NameDocs /\ ops = <<>>
        \/ fam = "id" /\ doc \in IdDocs /\ NoDup(Filter([i \in DOMAIN doc.objs |-> doc.objs[i].uid], LAMBDA u : u # 0)) /\ ops = <<>>
        \/ fam = "morph" /\ doc \in MorphDocs /\ ops = <<>>
Milli(d) == [d EXCEPT !.objs = [i \in DOMAIN d.objs |-> [d.objs[i] EXCEPT !.verts = [k \in DOMAIN d.objs[i].verts |-> [c \in 1..3 |-> 1000 * d.objs[i].verts[k][c]]]]]]
Transform == fam = "tree" /\ Len(ops) < 2 /\ \E g \in Moves : ops' = Append(ops, [op |-> "transform", g |-> g])
Pose == fam = "bone" /\ Len(ops) < 1 /\ \E b \in DOMAIN doc.bones, x \in 1..3, a \in {2, 4, 9} : ops' = Append(ops, [op |-> "pose", bone |-> b, axis |-> x, ang |-> a])
Straighten == fam = "bone" /\ Len(ops) < 1 /\ \E b \in DOMAIN doc.bones : ops' = Append(ops, [op |-> "adjust", bone |-> b])
FixNames == fam = "name" /\ Len(ops) < 2 /\ ops' = Append(ops, [op |-> "fixnames"])
FixIds == fam = "id" /\ Len(ops) < 2 /\ ops' = Append(ops, [op |-> "fixids"])
Morph == fam = "morph" /\ Len(ops) < 2 /\ \E n \in {"t1", "t2", "missing", "odd"}, v \in {25, 100} : ops' = Append(ops, [op |-> "morph", name |-> n, val |-> v])
Next == (Transform \/ Pose \/ Straighten \/ FixNames \/ FixIds \/ Morph) /\ UNCHANGED <<fam, doc>>
Spec == Init /\ [][Next]_<<fam, doc, ops>>
(* Laws. *)
Forest == fam = "tree" => \A i \in DOMAIN doc.objs : i \notin Ancestors(Depths(doc), i) /\ \A a \in Ancestors(Depths(doc), i) : Depths(doc)[a] < Depths(doc)[i]
(* Descendants: closed under children, contains the bone, nothing above it. *)
BelowOk == fam = "bone" => \A b \in DOMAIN doc.bones : LET S == Below(doc.bones, {b}) IN
   b \in S /\ (\A k \in DOMAIN doc.bones : doc.bones[k].parent \in S => k \in S) /\ (doc.bones[b].parent > 0 => doc.bones[b].parent \notin S)
(* Weights of complementary skeleton parts add up to the vertex's weight. *)
WeightsAdd == (fam = "bone" /\ ops = <<>>) => \A b \in DOMAIN doc.bones : LET S == Below(doc.bones, {b}) IN
   \A o \in {1, 2, 3} : \A v \in 1..4 : WeightOf(doc, S, o, v) + WeightOf(doc, DOMAIN doc.bones \ S, o, v) = WeightOf(doc, DOMAIN doc.bones, o, v)
(* Applying a morph fully puts the base on the target; displacements of others stay. *)
MorphFull == (fam = "morph" /\ ops = <<>> /\ Len(doc.morphs) = 1 /\ doc.morphs[1].base = "base" /\ doc.morphs[1].targets[1] = "t1") =>
   LET d == MorphAll(Milli(doc), "t1", 100) IN d.objs[1].verts = Milli(doc).objs[2].verts /\ d.objs[2] = Milli(doc).objs[2]
Laws == Forest /\ BelowOk /\ WeightsAdd /\ MorphFull
Want == CASE fam \in {"name", "id"} -> 2 [] OTHER -> 1
Emit == (Len(ops) >= Want) => PrintT("CASE " \o ToJson([fam |-> fam, doc |-> doc, ops |-> ops]))
=============================================================================
