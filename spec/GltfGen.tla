------------------------------ MODULE GltfGen -------------------------------
(* Small glTF files, built step by step: a tree of nodes with quarter turns,  *)
(* scales and matrices, meshes of lists, strips and fans, skins.              *)
EXTENDS GltfToMqo, Json
CONSTANTS NNodes, Turns, Scales, Modes, NPrims, NSkins
VARIABLES kind, gb
S(x, y, z) == <<1000 * x, 1000 * y, 1000 * z>>
Local(n) == MatMul(MoveOf(n.t), MatMul(RotZ(n.r[3]), MatMul(RotY(n.r[2]), MatMul(RotX(n.r[1]), ScaleOf(n.s)))))
(* How a viewer sees the file (only what placement needs). *)
ViewOf(d) == [nodes |-> [i \in DOMAIN d.nodes |-> [name |-> d.nodes[i].name, ch |-> d.nodes[i].ch, mesh |-> d.nodes[i].mesh, skin |-> d.nodes[i].skin, m |-> Local(d.nodes[i])]], roots |-> d.roots]
(* Turns about x, y and z as digits of a number; the kinds of scales. *)
TurnAt(c) == <<c % 4, (c \div 4) % 4, c \div 16>>
ScaleAt(c) == CASE c = 1 -> <<1000, 1000, 1000>> [] c = 2 -> <<2000, 2000, 2000>> [] OTHER -> <<-1000, 1000, 1000>>
Node(i, t, r, s, asm, mesh) == [name |-> "n" \o ToString(i), ch |-> <<>>, mesh |-> mesh, skin |-> 0, t |-> t, r |-> r, s |-> s, asm |-> asm]
Pos == <<S(0, 0, 1), S(3, 0, 1), S(1, 1, 1), S(0, 3, 1), S(3, 3, 2)>>
Uv == <<<<0, 0>>, <<250, 500>>, <<500, 250>>, <<750, 0>>, <<1000, 1000>>>>
Prim(mode, idx, mat, uv, same) == [mat |-> mat, mode |-> mode, idx |-> idx, pos |-> Pos, uv |-> IF uv THEN Uv ELSE <<>>, nrm |-> <<>>, j |-> <<>>, w |-> <<>>, t |-> <<>>, same |-> same]
IdxOf(k) == CASE k = 0 -> <<0, 1, 2>> [] k = 1 -> <<0, 1, 2, 3, 4, 1>> [] k = 2 -> <<4, 3, 2, 1, 0>> [] k = 3 -> <<1, 0, 2, 4>> [] OTHER -> <<>>
Mat(i) == [name |-> "m" \o ToString(i), pbr |-> i # 2, col |-> <<250 * i, 500, 0, 1000>>, met |-> 500, rou |-> 250, dbl |-> i = 1, emi |-> <<0, 500, 0>>, am |-> i % 3, cut |-> 250, tex |-> IF i = 1 THEN "a.png" ELSE "", src |-> TRUE]
Skinned == [Prim(4, IdxOf(0), 1, TRUE, 0) EXCEPT !.j = [k \in 1..5 |-> <<0, 0, 0, 0>>], !.w = [k \in 1..5 |-> <<1000, 0, 0, 0>>]]
Doc0(nodes, roots, meshes) == [nodes |-> nodes, roots |-> roots, meshes |-> meshes, skins |-> <<>>, mats |-> <<Mat(1), Mat(2), Mat(3)>>, layout |-> 0, jbyte |-> FALSE, idxsz |-> 0]
Plain == [name |-> "mesh", prims |-> <<Prim(4, IdxOf(0), 1, TRUE, 0), Prim(4, IdxOf(1), 2, FALSE, 0)>>, names |-> <<>>]
Init ==
  \/ /\ kind = "tree" /\ gb = Doc0(<<>>, <<>>, <<Plain>>)
  \/ /\ kind = "prims" /\ gb = Doc0(<<Node(1, S(1, 2, 3), <<0, 0, 0>>, <<1000, 1000, 1000>>, FALSE, 1)>>, <<1>>, <<[name |-> "mesh", prims |-> <<>>, names |-> <<>>]>>)
  \/ /\ kind = "skins" /\ gb = Doc0(<<>>, <<>>, <<[name |-> "mesh", prims |-> <<Skinned>>, names |-> <<>>]>>)
AddNode(d, p, n) == LET i == Len(d.nodes) + 1 IN
  IF p = 0 THEN [d EXCEPT !.nodes = Append(@, n), !.roots = Append(@, i)] ELSE [d EXCEPT !.nodes = Append([@ EXCEPT ![p].ch = Append(@, i)], n)]
Next == /\ UNCHANGED kind
  /\ CASE kind = "tree" -> /\ Len(gb.nodes) < NNodes
           /\ LET i == Len(gb.nodes) + 1 IN \E p \in 0..(i - 1) : \E rc \in Turns : \E sc \in Scales : \E a \in BOOLEAN :
              gb' = AddNode(gb, p, Node(i, S(i, 0, 2 - i), TurnAt(rc), ScaleAt(sc), a /\ i = 1, IF i = NNodes THEN 1 ELSE 0))
       [] kind = "prims" -> /\ Len(gb.meshes[1].prims) < NPrims
           /\ \E m \in Modes : \E k \in 0..4 : \E uv \in BOOLEAN : LET n == Len(gb.meshes[1].prims) IN
              /\ m # 4 \/ k \in {0, 1}
              /\ gb' = [gb EXCEPT !.meshes[1].prims = Append(@, Prim(m, IdxOf(k), 1 + ((n + k) % 3), uv, IF n > 0 /\ k = 0 THEN 1 ELSE 0))]
       [] OTHER -> IF Len(gb.nodes) < NNodes + 1
           THEN LET i == Len(gb.nodes) + 1 IN \E p \in 0..(i - 1) :
                gb' = AddNode(gb, p, Node(i, S(i, 1, 0), <<0, 0, IF i = 2 THEN 1 ELSE 0>>, <<1000, 1000, 1000>>, FALSE, IF i = 1 THEN 1 ELSE 0))
           ELSE /\ Len(gb.skins) < NSkins
                /\ \E J \in SUBSET (2..(NNodes + 1)) : \E sk \in 0..(NNodes + 1) :
                   /\ J # {} /\ Cardinality(J) <= 2
                   /\ gb' = [gb EXCEPT !.skins = Append(@, [joints |-> Reverse(Listed(J)), ibm |-> <<>>, skel |-> sk]), !.nodes[1].skin = 1]

(* ---- the design --------------------------------------------------------------- *)
RECURSIVE Down(_, _, _)
(* Places passed down from the roots, as <<node, matrix>>. *)
Down(g, n, up) == LET m == MatMul(up, g.nodes[n].m) IN {<<n, m>>} \cup UNION { Down(g, c, m) : c \in Rng(g.nodes[n].ch) }
RECURSIVE Below(_, _)
Below(g, n) == {n} \cup UNION { Below(g, c) : c \in Rng(g.nodes[n].ch) }
Marked(g) == UNION { UNION { Below(g, j) : j \in Rng(gb.skins[s].joints) \cup ({gb.skins[s].skel} \ {0}) } : s \in DOMAIN gb.skins }
RECURSIVE Chain(_, _, _)
Chain(g, n, p) == Append(Flat([i \in DOMAIN g.nodes[n].ch |-> Chain(g, g.nodes[n].ch[i], n)]), <<n, p>>)
DesignBones(g) == LET K == Marked(g) IN Flat([n \in DOMAIN g.nodes |-> IF n \in K /\ ParentOf(g, n) \notin K THEN Chain(g, n, 0) ELSE <<>>])
Laws == LET g == ViewOf(gb) IN
  CASE kind = "tree" -> /\ TreeOk(g)
         /\ UNION { Down(g, r, Ident) : r \in Rng(gb.roots) } = { <<n, World(g, n)>> : n \in DOMAIN g.nodes }
         /\ \A n \in DOMAIN g.nodes : DetSign(World(g, n)) = SignOf(gb.nodes[n].s[1]) * (IF ParentOf(g, n) = 0 THEN 1 ELSE DetSign(World(g, ParentOf(g, n))))
    [] kind = "prims" -> \A i \in DOMAIN gb.meshes[1].prims : LET q == [gb.meshes[1].prims[i] EXCEPT !.mode = IF @ = 4 THEN 0 ELSE @] T == TriIdx(q)
           E == SideEdges([t \in DOMAIN T |-> <<0, T[t]>>]) n == Len(q.idx) IN
           (* a strip or fan is one surface: its rim has as many edges as it has vertices *)
           q.mode \in {5, 6} /\ n >= 3 /\ NoDup(q.idx) => Cardinality({ e \in Rng(E) : NetCount(E, e) > 0 }) = n
    [] OTHER -> LET B == DesignBones(g) IN
         /\ NoDup([i \in DOMAIN B |-> B[i][1]]) /\ { B[i][1] : i \in DOMAIN B } = Marked(g)
         /\ \A i \in DOMAIN B : B[i][2] = (IF ParentOf(g, B[i][1]) \in Marked(g) THEN ParentOf(g, B[i][1]) ELSE 0)
Full == kind = "prims" \/ Len(gb.nodes) >= NNodes
Emit == IF Full THEN PrintT("CASE " \o ToJson([gb |-> gb])) ELSE TRUE
=============================================================================
