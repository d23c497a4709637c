---------------------------- MODULE MqoToGltfGen ----------------------------
(* Small documents of three kinds: faces that share vertices with equal or   *)
(* different texture coordinates and normals; object trees of every depth    *)
(* sequence; corners pulled by up to six bones.  The laws say that the       *)
(* converter's design (split vertices by attributes, a stack of depths, the  *)
(* smallest weight replaced by larger ones) keeps what the properties say.   *)
EXTENDS MqoToGltf, Json
CONSTANTS Loops, Uvs, Ns, NFaces, NObjs, Depths, NBones, Wts
VARIABLES kind, doc, opt
S(x, y, z) == <<1000 * x, 1000 * y, 1000 * z>>
Verts1 == <<S(0, 0, 1), S(3, 0, 1), S(1, 1, 1), S(0, 3, 1), S(3, 3, 1), S(1, 2, 3)>>
LoopAt(i) == CASE i = 1 -> <<1, 2, 3>> [] i = 2 -> <<1, 2, 5, 4>> [] i = 3 -> <<1, 2, 3, 4>> [] i = 4 -> <<2, 3, 6>> [] i = 5 -> <<3, 2, 1, 4>> [] OTHER -> <<1, 2>>
UvOf(u, n) == CASE u = 0 -> <<>> [] u = 1 -> [k \in 1..n |-> <<250 * (k % 2), 500>>] [] OTHER -> [k \in 1..n |-> <<250 * (k % 2), 500 * (k % 3)>>]
NOf(u, n) == CASE u = 0 -> <<>> [] u = 1 -> [k \in 1..n |-> <<0, 0, 1000>>] [] OTHER -> [k \in 1..n |-> IF k % 2 = 0 THEN <<0, 1000, 0>> ELSE <<0, 0, 1000>>]
Faces == { [v |-> LoopAt(i), m |-> m, uv |-> UvOf(u, Len(LoopAt(i))), n |-> NOf(q, Len(LoopAt(i)))] : i \in Loops, m \in {-1, 0, 1}, u \in Uvs, q \in Ns }
Obj(n, u, dep, vis, vs, fs) == [name |-> n, uid |-> u, depth |-> dep, vis |-> vis, verts |-> vs, faces |-> fs, vids |-> <<>>, it |-> <<>>, l |-> <<>>, smth |-> 0, key |-> ""]
Tri == [v |-> <<1, 3, 2>>, m |-> 1, uv |-> <<>>, n |-> <<>>]
Moved == [Verts1 EXCEPT ![2] = S(3, 1, 2), ![6] = S(0, 0, 0)]
MatN(i) == [name |-> "m" \o ToString(i), col |-> <<1000, 500, 0, 1000>>, tex |-> "", dbl |-> i = 1, pow |-> 5000, emi |-> 0, shd |-> "", edge |-> -1, ec |-> <<>>, met |-> 0, rou |-> 0, am |-> 0, cut |-> 0, unl |-> FALSE]
BoneN(i, w) == [id |-> i, name |-> "b" \o ToString(i), parent |-> IF i > 1 /\ i % 2 = 0 THEN i - 1 ELSE 0, group |-> 0, pos |-> S(0, i, 1), mov |-> 0, ik |-> <<>>, w |-> w]
Bones == <<BoneN(2, <<<<7, 1, 500>>, <<7, 2, 250>>, <<8, 1, 1000>>>>), BoneN(1, <<<<7, 2, 750>>, <<7, 6, 125>>>>)>>
OptOf(f, u) == [scale |-> 1000, unlit |-> u, flat |-> f, reuse |-> FALSE, detect |-> FALSE, rc |-> FALSE, thr |-> 0, ts |-> 1000, lim |-> 0]
DocOf(objs, bones, morphs) == [objs |-> objs, mats |-> <<MatN(1), MatN(2)>>, bones |-> bones, morphs |-> morphs, bodies |-> <<>>, joints |-> <<>>]
Init ==
  \/ /\ kind = "faces" /\ opt \in { OptOf(FALSE, u) : u \in BOOLEAN }
     /\ \E k \in 1..2 : doc = DocOf(<<Obj("o", 7, 0, TRUE, Verts1, <<>>), Obj("p", 8, 1, TRUE, Moved, <<Tri>>)>>, Bones, IF k = 1 THEN <<>> ELSE <<[base |-> "o", targets |-> <<"p", "gone">>]>>)
  \/ /\ kind = "tree" /\ opt \in { OptOf(f, FALSE) : f \in BOOLEAN } /\ doc = DocOf(<<>>, <<>>, <<[base |-> "o9", targets |-> <<"o2">>]>>)
  \/ /\ kind = "weights" /\ opt = OptOf(FALSE, FALSE) /\ doc = DocOf(<<Obj("o", 7, 0, TRUE, Verts1, <<Tri>>)>>, <<>>, <<>>)
Next == /\ UNCHANGED <<kind, opt>>
  /\ CASE kind = "faces" -> Len(doc.objs[1].faces) < NFaces /\ \E f \in Faces : doc' = [doc EXCEPT !.objs[1].faces = Append(@, f)]
       [] kind = "tree" -> Len(doc.objs) < NObjs /\ \E dep \in Depths : \E vis \in BOOLEAN : LET i == Len(doc.objs) + 1 IN
             doc' = [doc EXCEPT !.objs = Append(@, Obj("o" \o ToString(i), i, dep, vis, Verts1, IF i = 3 THEN <<>> ELSE <<Tri>>))]
       [] OTHER -> Len(doc.bones) < NBones /\ \E w \in Wts : LET i == Len(doc.bones) + 1 IN
             /\ \A b \in DOMAIN doc.bones : doc.bones[b].w[1][3] # w
             /\ doc' = [doc EXCEPT !.bones = Append(@, BoneN(i, IF i <= 4 THEN <<<<7, 1, w>>, <<7, 2, 1000>>>> ELSE <<<<7, 1, w>>>>))]

(* ---- the design ------------------------------------------------------------- *)
Keys(o) == FoldLeft(LAMBDA a, x : IF x \in Rng(a) THEN a ELSE Append(a, x), <<>>,
    Flat([f \in DOMAIN o.faces |-> IF Shown(doc, o.faces[f]) THEN [k \in DOMAIN o.faces[f].v |-> <<o.faces[f].v[k], UvAt(o.faces[f], k), NAt(o.faces[f], k)>>] ELSE <<>>]))
PosIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Fan(n, s) == [k \in 1..(n - 2) |-> <<((s - 1) % n) + 1, ((s + k - 1) % n) + 1, ((s + k) % n) + 1>>]
GoodFan(L) == LET n == Len(L) T == { s \in 1..n : SumSeq([k \in 1..(n - 2) |-> AreaOf([j \in 1..3 |-> L[Fan(n, s)[k][j]]], 500)]) = AreaOf(L, 500) } IN
  Fan(n, IF T = {} THEN 1 ELSE Min(T))
(* Replace the smallest of the four kept weights when a larger one comes. *)
RECURSIVE Stream(_, _)
Stream(kept, s) == IF s = <<>> THEN kept ELSE
  LET x == Head(s) IN
  Stream(IF Cardinality(kept) < 4 THEN kept \cup {x} ELSE
         LET least == CHOOSE y \in kept : \A z \in kept : y[2] <= z[2] IN IF least[2] < x[2] THEN (kept \ {least}) \cup {x} ELSE kept, Tail(s))
DesignTris(o) == LET K == Keys(o) IN
  Flat([f \in DOMAIN o.faces |-> IF ~Shown(doc, o.faces[f]) THEN <<>> ELSE
    LET F == o.faces[f] at(k) == K[PosIn(K, <<F.v[k], UvAt(F, k), NAt(F, k)>>)]
        T == GoodFan([k \in DOMAIN F.v |-> o.verts[F.v[k]]]) IN
    [t \in DOMAIN T |-> <<doc.mats[F.m + 1].name, <<at(T[t][3]), at(T[t][2]), at(T[t][1])>>>>]])
DesignSurface(o) == LET D == DesignTris(o) W == WeightsOf(doc, o) N == Rng(MatchedTargets(doc, o))
      moves(v) == { x \in { <<n, Sub3(doc.objs[ObjNamed(doc, n)].verts[v], o.verts[v])>> : n \in N } : ~Zero(x[2]) } IN
  [i \in DOMAIN D |-> <<D[i][1], [k \in 1..3 |-> LET c == D[i][2][k] IN
     [p |-> o.verts[c[1]], uv |-> c[2], n |-> IF Shaded(o, opt) /\ GivenAll(doc, o) THEN c[3] ELSE <<>>, w |-> { <<doc.bones[x[1]].name, x[2]>> : x \in Normed(W[c[1]]) }, d |-> moves(c[1])]]>>]
(* The stack of open parents after objects 1..i, top last. *)
RECURSIVE Stack(_, _)
Popped(s, dep) == SelectSeq(s, LAMBDA j : doc.objs[j].depth < dep)
Stack(E, i) == IF i = 0 THEN <<>> ELSE IF i \notin E THEN Stack(E, i - 1) ELSE Append(Popped(Stack(E, i - 1), doc.objs[i].depth), i)
StackParent(E, i) == LET s == Popped(Stack(E, i - 1), doc.objs[i].depth) IN IF s = <<>> THEN 0 ELSE s[Len(s)]
Laws ==
  CASE kind = "faces" -> CoverBroken("C07", ObjSurface(doc, doc.objs[1], opt), DesignSurface(doc.objs[1]), 500) = {}
    [] kind = "tree" -> \A i \in Exported(doc, opt) : StackParent(Exported(doc, opt), i) = SrcParent(doc, Exported(doc, opt), i)
    [] OTHER -> Stream({}, [b \in DOMAIN doc.bones |-> <<b, doc.bones[b].w[1][3]>>]) = TopFour({ <<b, doc.bones[b].w[1][3]>> : b \in DOMAIN doc.bones })
(* Only weights whose shares are whole thousandths are replayed. *)
Exact == kind # "weights" \/ \A v \in 1..2 : LET T == TopFour(WeightsOf(doc, doc.objs[1])[v]) s == FoldSet(LAMBDA x, a : x[2] + a, 0, T) IN s = 0 \/ \A x \in T : (1000 * x[2]) % s = 0
Emit == IF Exact THEN PrintT("CASE " \o ToJson([doc |-> doc, opt |-> opt])) ELSE TRUE
=============================================================================
