---------------------------- MODULE FbxToMqoGen -----------------------------
(* Small FBX scenes, built step by step: a tree of models of all kinds with   *)
(* turns and scales; layers in every mapping; clusters and shapes.            *)
EXTENDS FbxToMqo, Json
CONSTANTS NModels, Turns, Scales, NClusters
VARIABLES kind, f
S(x, y, z) == <<1000 * x, 1000 * y, 1000 * z>>
TurnNo(c) == <<c % 4, (c \div 4) % 4, c \div 16>>
ScaleNo(c) == CASE c = 1 -> <<1000, 1000, 1000>> [] c = 2 -> <<2000, 500, 1000>> [] OTHER -> <<1000, -1000, 1000>>
NoLayer == [map |-> "", ref |-> "", vals |-> <<>>, idx |-> <<>>]
Verts == <<S(0, 0, 1), S(2, 0, 1), S(2, 2, 1), S(0, 3, 1), S(4, 4, 2)>>
Polys == << <<0, 1, 2, 3>>, <<2, 1, 4>> >>
Geo == [verts |-> Verts, polys |-> Polys, uv |-> NoLayer, nrm |-> NoLayer, mat |-> NoLayer, shapes |-> <<>>, skin |-> <<>>]
Model(i, k, p, t, pre, s, g) == [name |-> "n" \o ToString(i), kind |-> k, parent |-> p, t |-> S(i, 1, 0 - i), pre |-> TurnNo(pre), r |-> TurnNo(t), s |-> ScaleNo(s), geo |-> g, mats |-> IF g = 0 THEN <<>> ELSE <<2, 1>>]
Mat(i, T) == [name |-> "m" \o ToString(i), col |-> <<250 * i, 500, 0, 1000>>, inh |-> FALSE, texs |-> T]
Axes(k) == CASE k = 0 -> << <<0, 1>>, <<1, 1>>, <<2, 1>> >> [] k = 1 -> << <<0, 1>>, <<2, 1>>, <<1, -1>> >> [] OTHER -> << <<1, 1>>, <<0, -1>>, <<2, -1>> >>
Scene(k, M, G, T) == [axes |-> Axes(k), models |-> M, geos |-> G, mats |-> <<Mat(1, T), Mat(2, <<>>)>>, enc |-> "7400", zip |-> FALSE, mix |-> 0, single |-> FALSE]
Init ==
  \/ kind = "tree" /\ \E k \in 0..2 : f = Scene(k, <<>>, <<Geo>>, <<>>)
  \/ kind = "layers" /\ f = Scene(0, <<Model(1, "Mesh", 0, 0, 0, 1, 1)>>, <<Geo>>, <<>>)
  \/ kind = "rig" /\ f = Scene(0, <<>>, <<Geo>>, <<>>)
Uvs == <<<<0, 0>>, <<250, 500>>, <<500, 250>>, <<750, 0>>, <<1000, 1000>>, <<250, 250>>, <<500, 0>>>>
Nrms == <<S(0, 0, 1), <<600, 0, 800>>, S(1, 0, 0), S(0, 0, 0 - 1), S(0, 0 - 1, 0), S(0 - 1, 0, 0), S(0, 0, 1)>>
Layers(V) == { [map |-> m, ref |-> r, vals |-> IF r = "Direct" THEN SubSeq(V, 1, IF m = "ByPolygonVertex" THEN 7 ELSE 5) ELSE SubSeq(V, 1, 3),
                idx |-> IF r = "Direct" THEN <<>> ELSE [k \in 1..(IF m = "ByPolygonVertex" THEN 7 ELSE 5) |-> (k * o) % 3]]
               : m \in {"ByPolygonVertex", "ByControlPoint", "ByVertice"}, r \in {"Direct", "IndexToDirect"}, o \in 1..2 }
MatLayers == { NoLayer } \cup { [map |-> "AllSame", ref |-> "IndexToDirect", vals |-> <<>>, idx |-> <<i>>] : i \in 0..1 } \cup { [map |-> "ByPolygon", ref |-> "IndexToDirect", vals |-> <<>>, idx |-> <<i, j>>] : i, j \in 0..1 }
TexLists == { <<>>, <<[prop |-> "DiffuseColor", file |-> "a.png"]>>, <<[prop |-> "NormalMap", file |-> "n.png"], [prop |-> "DiffuseColor", file |-> "a.png"]>>, <<[prop |-> "NormalMap", file |-> "n.png"]>> }
Next == /\ UNCHANGED kind
  /\ LET i == Len(f.models) + 1 IN
     CASE kind = "tree" -> /\ i <= NModels
           /\ \E p \in 0..(i - 1) : \E t \in Turns : \E s \in Scales : \E k \in {"Null", "LimbNode", "Mesh"} : \E pre \in (IF i = 1 THEN {0, 16} ELSE {0}) :
              f' = [f EXCEPT !.models = Append(@, Model(i, k, p, t, pre, s, IF k = "Mesh" THEN 1 ELSE 0))]
       [] kind = "layers" -> /\ f.geos[1].mat = NoLayer /\ f.geos[1].uv = NoLayer /\ f.geos[1].nrm = NoLayer
           /\ \E u \in Layers(Uvs) \cup {NoLayer} : \E n \in Layers(Nrms) \cup {NoLayer} : \E m \in MatLayers : \E T \in TexLists :
              f' = [f EXCEPT !.geos[1].uv = u, !.geos[1].nrm = n, !.geos[1].mat = m, !.mats[1].texs = T]
       [] OTHER -> IF i <= NModels + 1
           THEN \E p \in 0..(i - 1) : \E k \in (IF i = NModels + 1 THEN {"Mesh"} ELSE {"LimbNode", "Null"}) :
                f' = [f EXCEPT !.models = Append(@, Model(i, k, p, IF i = 2 THEN 16 ELSE 0, 0, 1, IF k = "Mesh" THEN 1 ELSE 0))]
           ELSE /\ Len(f.geos[1].skin) < NClusters
                /\ \E b \in 1..NModels : \E q \in 0..2 : \E sh \in BOOLEAN :
                   f' = [f EXCEPT !.geos[1].skin = Append(@, [model |-> b, idx |-> IF q = 0 THEN <<0, 1>> ELSE IF q = 1 THEN <<4, 2>> ELSE <<1>>, w |-> IF q = 2 THEN <<500>> ELSE <<250, 750>>]),
                                  !.geos[1].shapes = IF sh THEN Append(@, [name |-> "s" \o ToString(Len(@)), idx |-> <<4, 1>>, d |-> <<S(1, 0, 2), S(0, 2, 0)>>, nested |-> q = 1]) ELSE @]

(* ---- the design ------------------------------------------------------------------- *)
RECURSIVE Passed(_, _, _)
Passed(g, n, up) == LET m == MatMul(up, LocalOf(g.models[n])) IN {<<n, m>>} \cup UNION { Passed(g, c, m) : c \in { c \in DOMAIN g.models : g.models[c].parent = n } }
(* Every layer written out per corner. *)
Corners(P) == Flat([i \in DOMAIN P |-> [k \in DOMAIN P[i] |-> <<i, Upto(P, i) + k, P[i][k]>>]])
Expanded(y, P, none) == IF y.map = "" THEN y ELSE [map |-> "ByPolygonVertex", ref |-> "Direct", idx |-> <<>>, vals |-> [c \in DOMAIN Corners(P) |-> Entry(y, Corners(P)[c][1], c, Corners(P)[c][3], none)]]
Laws ==
  CASE kind = "tree" -> UNION { Passed(f, r, AxesMat(f.axes)) : r \in { r \in DOMAIN f.models : f.models[r].parent = 0 } } = { <<n, SceneOf(f, n)>> : n \in DOMAIN f.models }
    [] kind = "layers" -> ModelSoup(f, 1) = ModelSoup([f EXCEPT !.geos[1].uv = Expanded(@, Polys, <<0, 0>>), !.geos[1].nrm = Expanded(@, Polys, S(0, 0, 0))], 1)
    [] OTHER -> \A n \in DOMAIN f.models : f.models[n].geo # 0 => LET A == ModelSoup(f, n) IN
         (* all corners at a point are pulled and moved alike *)
         \A i, j \in DOMAIN A : \A k \in DOMAIN A[i][2] : \A m \in DOMAIN A[j][2] : A[i][2][k].p = A[j][2][m].p => A[i][2][k].w = A[j][2][m].w /\ A[i][2][k].d = A[j][2][m].d
Full == CASE kind = "tree" -> Len(f.models) = NModels [] kind = "rig" -> f.geos[1].skin # <<>> [] OTHER -> TRUE
Emit == IF Full THEN PrintT("CASE " \o ToJson(f)) ELSE TRUE
=============================================================================
