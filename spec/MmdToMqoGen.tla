---------------------------- MODULE MmdToMqoGen -----------------------------
(* All small models: which faces share vertices, where materials split, and  *)
(* which vertices each morph moves.                                          *)
EXTENDS MmdToMqo, Json
CONSTANTS MaxFaces, MaxTargets, Targets
VARIABLES model
Tri == {<<0, 1, 2>>, <<2, 3, 4>>, <<5, 6, 7>>, <<7, 8, 0>>}
NV == 10
Vert(i) == [pos |-> <<500 * i, 1000 * (i % 3), 1500 * (i % 4)>>, nrm |-> <<0, 1000 * (i % 2), 500>>, uv |-> <<500 * (i % 5), 1000 - 500 * (i % 3)>>,
            ext |-> <<>>, edge |-> 1000, bones |-> <<i % 2, 1>>, w |-> <<750, 250>>, sd |-> <<>>]
Mat(i, n) == [name |-> "m" \o ToString(i), nameen |-> "", col |-> <<500, 0, 1000, 1000>>, spec |-> <<0, 0, 0>>, specp |-> 5000, amb |-> <<0, 0, 0>>, flags |-> i % 2,
              edgecol |-> <<0, 0, 0, 0>>, edge |-> 0, tex |-> -1, env |-> -1, envmode |-> 0, toontype |-> 0, toon |-> -1, memo |-> "", count |-> n]
Bone(i) == [name |-> "b" \o ToString(i), nameen |-> "", pos |-> <<0, 500 * i, 500>>, parent |-> i - 2, layer |-> 0, flags |-> 0, tailid |-> -1, tailpos |-> <<0, 0, 0>>,
            inh |-> -1, inhw |-> 0, axis |-> <<0, 0, 0>>, ik |-> [target |-> -1, loop |-> 0, limit |-> 0, links |-> <<>>]]
Morph(i, T, uv) == LET s == SetToSortSeq(T, <) IN
  [name |-> "f" \o ToString(i), nameen |-> "", panel |-> 0, type |-> IF uv THEN 3 ELSE 1, group |-> <<>>, mat |-> <<>>, bone |-> <<>>,
   vertex |-> IF uv THEN <<>> ELSE [k \in DOMAIN s |-> <<s[k], 500 * i, 500 * k, 1000>>],
   uv |-> IF uv THEN [k \in DOMAIN s |-> <<s[k], 500 * i, 1000, 0, 0>>] ELSE <<>>]
Small == { S \in SUBSET Targets : Cardinality(S) <= MaxTargets }
MorphLists == { <<>> } \cup { <<Morph(1, S, u)>> : S \in Small, u \in BOOLEAN } \cup { <<Morph(1, S, FALSE), Morph(2, T, u)>> : S, T \in Small, u \in BOOLEAN }
FaceLists == UNION { [1..n -> Tri] : n \in 1..MaxFaces }
Mk(F, c, M) ==
  [name |-> "", nameen |-> "", comment |-> "", commenten |-> "", verts |-> [i \in 1..NV |-> Vert(i)], faces |-> F, tex |-> <<>>,
   mats |-> <<Mat(1, 3 * c), Mat(2, 3 * (Len(F) - c))>>, bones |-> <<Bone(1), Bone(2)>>, morphs |-> M, bodies |-> <<>>, joints |-> <<>>]
(* three separate parts, morphs that tie them together in every way *)
Parts == <<<<0, 1, 2>>, <<3, 4, 8>>, <<5, 6, 7>>>>
PartSets == { S \in SUBSET {0, 3, 5} : Cardinality(S) \in 1..2 }
Chains == { <<Morph(1, S, FALSE), Morph(2, T, FALSE), Morph(3, U, FALSE)>> : S, T, U \in PartSets }
Chain == { Mk(Parts, 1, M) : M \in Chains }
Init == model \in Chain \/ \E F \in FaceLists : \E c \in 0..Len(F) : model = Mk(F, c, <<>>)
Next == model.morphs = <<>> /\ \E M \in MorphLists : model' = [model EXCEPT !.morphs = M]
Laws == DesignOk(model)
Emit == PrintT("CASE " \o ToJson([p |-> model, known |-> <<>>, threshold |-> 500, kind |-> IF model.faces = Parts THEN "chain" ELSE "all"]))
=============================================================================
