---------------------------- MODULE MqoToMmdGen -----------------------------
(* Small documents: faces sharing vertices with equal or different texture   *)
(* coordinates, over two materials and two objects, shown, hidden, used as   *)
(* morph bases or morph shapes.                                              *)
EXTENDS MqoToMmd, Json
CONSTANTS Loops, Uvs, NFaces
VARIABLES doc
S(x, y, z) == <<80000 * x, 80000 * y, 80000 * z>>
Verts1 == <<S(0, 0, 1), S(3, 0, 1), S(1, 1, 1), S(0, 3, 1), S(3, 3, 1), S(1, 2, 3)>>
LoopAt(i) == CASE i = 1 -> <<1, 2, 3>> [] i = 2 -> <<1, 2, 5, 4>> [] i = 3 -> <<1, 2, 3, 4>> [] i = 4 -> <<2, 3, 6>> [] i = 5 -> <<3, 2, 1, 4>> [] i = 6 -> <<4, 1, 2, 3>> [] OTHER -> <<1, 2>>
UvOf(u, n) == CASE u = 0 -> <<>> [] u = 1 -> [k \in 1..n |-> <<250 * (k % 2), 500>>] [] OTHER -> [k \in 1..n |-> <<250 * (k % 2), 500 * (k % 3)>>]
Faces == { [v |-> LoopAt(i), m |-> m, uv |-> UvOf(u, Len(LoopAt(i))), n |-> <<>>] : i \in Loops, m \in {-1, 0, 1}, u \in Uvs }
Obj(n, u, vis, vs, fs) == [name |-> n, uid |-> u, depth |-> 0, vis |-> vis, verts |-> vs, faces |-> fs, vids |-> <<>>, it |-> <<>>, l |-> <<>>, smth |-> 0]
Tri == [v |-> <<1, 3, 2>>, m |-> 1, uv |-> <<>>, n |-> <<>>]
Moved == [Verts1 EXCEPT ![2] = S(3, 1, 2), ![6] = S(0, 0, 0)]
MatN(i) == [name |-> "m" \o ToString(i), col |-> <<1000, 500, 0, 1000>>, tex |-> "", dbl |-> FALSE, pow |-> 5000, emi |-> 0, shd |-> "", edge |-> -1]
BoneN(i, w) == [id |-> 3 - i, name |-> "b" \o ToString(i), parent |-> IF i = 2 THEN 2 ELSE 0, group |-> 0, pos |-> S(0, i, 1), mov |-> 0, ik |-> <<>>, w |-> w]
Bones == <<BoneN(1, <<<<7, 1, 500>>, <<7, 2, 250>>, <<8, 1, 1000>>>>), BoneN(2, <<<<7, 2, 750>>, <<7, 6, 125>>>>)>>
Init == \E k \in 1..3 : \E vis \in BOOLEAN :
  doc = [objs |-> <<Obj("o", 7, k # 1 \/ vis, Verts1, <<>>), Obj("p", 8, vis, Moved, <<Tri>>)>>, mats |-> <<MatN(1), MatN(2)>>, bones |-> Bones,
         morphs |-> IF k = 1 THEN <<>> ELSE IF k = 2 THEN <<[base |-> "o", targets |-> <<"p">>]>> ELSE <<[base |-> "p", targets |-> <<"o", "gone">>]>>,
         bodies |-> <<>>, joints |-> <<>>]
Next == Len(doc.objs[1].faces) < NFaces /\ \E f \in Faces : doc' = [doc EXCEPT !.objs[1].faces = Append(@, f)]
Laws == DesignOk(doc)
Emit == PrintT("CASE " \o ToJson([doc |-> doc]))
=============================================================================
