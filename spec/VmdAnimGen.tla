----------------------------- MODULE VmdAnimGen -----------------------------
(* Short motions on a small model: bone keys in any order, with duplicates    *)
(* and unknown names; expressions shared between meshes and keyed apart.      *)
EXTENDS VmdAnim, Json
CONSTANTS Rich
VARIABLES S
K(t, f, p, r) == [t |-> t, frame |-> f, pos |-> p, rot |-> r]
E(t, f, v) == [t |-> t, frame |-> f, val |-> v]
Bo(n, p, at) == [name |-> n, parent |-> p, at |-> at]
Me(names, n) == [names |-> names, n |-> n]
Bones == << Bo("a", 0, <<0, 1000, 0>>), Bo("b", 1, <<250, 1500, -125>>), Bo("c", 2, <<250, 1750, 500>>) >>
Ca(bones, meshes, mnodes, mb, mm, first, loaded, conv) ==
  [flip |-> FALSE, bones |-> bones, meshes |-> meshes, mnodes |-> mnodes, motion |-> [bones |-> mb, morphs |-> mm], first |-> first, loaded |-> loaded, conv |-> conv]
UpTo(X, n) == UNION { [1..k -> X] : k \in 0..n }
Id == <<0, 0, 0, 1000>>
Qs == { Id, <<600, 0, 0, 800>>, <<0, 480, -640, 600>> }
BoneKeys == { K(t, f, p, r) : t \in {"a", "b"}, f \in {0, 1}, p \in { <<0, 0, 0>>, <<1000, -2000, 3000>> }, r \in {Id, <<600, 0, 0, 800>>} }
         \cup { K("b", f, <<500, 0, -250>>, <<0, 480, -640, 600>>) : f \in {2, 90} } \cup { K("x", 1, <<1000, 0, 0>>, Id) } \cup { K("a", 0, p, r) : p \in { <<0, 0, 500>>, <<0, -250, 0>> }, r \in { <<0, 0, 1000, 0>>, <<0, -600, 0, -800>>, Id } }
BoneCases == { Ca(Bones, <<>>, <<>>, mb, <<>>, FALSE, FALSE, conv) : mb \in UpTo(BoneKeys, 2), conv \in BOOLEAN }
        \cup { Ca(Bones, << Me(<<"m">>, 1) >>, <<1>>, mb, <<>>, TRUE, FALSE, FALSE) :
               mb \in [1..3 -> (IF Rich THEN BoneKeys ELSE { k \in BoneKeys : k.pos # <<0, 0, 0>> /\ k.rot # Id })] }
MorphKeys == { E(t, f, v) : t \in {"m1", "m2"}, f \in {0, 3, 9}, v \in {0, 500, 1000} } \cup { E("no", 1, 1000), E("m2", 6, -250), E("m1", 6, 1500) }
Meshes == << Me(<<"m1", "m2">>, 2), Me(<<"m2">>, 1), Me(<<>>, 0), Me(<<"m1", "o", "m2">>, 3) >>
MorphCases == { Ca(<< Bones[1] >>, Meshes, mn, <<>>, mm, first, loaded, FALSE) :
    mm \in UpTo(MorphKeys, 2), mn \in { <<1>>, <<2, 1>>, <<3, 4, 4>> }, first \in {TRUE}, loaded \in BOOLEAN }
  \cup { Ca(<< Bones[1] >>, Meshes, <<4, 2>>, <<>>, mm, FALSE, FALSE, FALSE) : mm \in [1..3 -> { k \in MorphKeys : Rich \/ k.val \in {-250, 500, 1500} \/ (k.t = "m1" /\ k.frame = 9) }] }
Both == { Ca(Bones, Meshes, <<1, 2>>, mb, mm, first, FALSE, FALSE) : mb \in UpTo({ K("b", 3, <<0, 1000, 0>>, Id), K("c", 0, <<0, 0, 0>>, <<600, 0, 0, 800>>), K("m1", 0, <<1000, 0, 0>>, Id) }, 2), mm \in UpTo({ E("b", 0, 1000), E("m2", 3, 500), E("m1", 0, 250) }, 2), first \in BOOLEAN }
FlipCases == { [c EXCEPT !.flip = TRUE] : c \in { c \in BoneCases : Len(c.motion.bones) = 1 } }
Init == S \in FlipCases \cup BoneCases \cup MorphCases \cup Both
Next == FALSE /\ UNCHANGED S
Spec == Init /\ [][Next]_S

(* ---- the design ---------------------------------------------------------------- *)
Order == <<"m1", "m2", "no">>
(* A track passes through every key that is given once, never leaves the range of  *)
(* its keys, and does not depend on the order of the keys.                          *)
Through == \A i \in DOMAIN S.motion.morphs : LET k == S.motion.morphs[i] IN Values(S.motion.morphs, k.t, k.frame) = Weight(S.motion.morphs, k.t, k.frame)
Within == \A i \in DOMAIN S.motion.morphs : LET t == S.motion.morphs[i].t V == { S.motion.morphs[j].val : j \in { x \in DOMAIN S.motion.morphs : S.motion.morphs[x].t = t } } IN
  \A f \in 0..12 : \A w \in Weight(S.motion.morphs, t, f) : w >= Min(V) - 1 /\ w <= Max(V)
Back(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
AnyOrder == \A t \in {"m1", "m2"} : Frames(S.motion.morphs, t) # {} => \A f \in 0..12 : Weight(S.motion.morphs, t, f) = Weight(Back(S.motion.morphs), t, f)
Shared == \A m \in DOMAIN S.meshes : \A i \in Driven(S.motion.morphs, S.meshes[m]) : Frames(S.motion.morphs, S.meshes[m].names[i]) \subseteq MeshFrames(S.motion.morphs, S.meshes[m])
(* Turning the motion of a turned model back gives the motion of the model.         *)
Turned == \A i \in DOMAIN S.motion.bones : LET k == S.motion.bones[i] o == [S EXCEPT !.flip = ~S.flip] IN
  /\ RotOf(S, k) = RotOf(o, [k EXCEPT !.rot[1] = -k.rot[1], !.rot[3] = -k.rot[3]])
  /\ TransOf(S, <<0, 0, 0>>, k) = TransOf(o, <<0, 0, 0>>, [k EXCEPT !.pos[1] = -k.pos[1], !.pos[3] = -k.pos[3]])
Steady == \A f \in 0..50 : Ms(f) < Ms(f + 1) /\ Near(30 * Ms(f), 1000 * f, 15)
Laws == Through /\ Within /\ AnyOrder /\ Shared /\ Steady /\ Turned
Emit == PrintT("CASE " \o ToJson(S))
=============================================================================
