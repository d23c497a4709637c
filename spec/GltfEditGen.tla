---------------------------- MODULE GltfEditGen -----------------------------
(* Files with a tree of nodes, a skinned and a plain mesh, and histories of   *)
(* edits.  The design of the edits (scale every place and conjugate the bind  *)
(* matrices; push turns down to the children and correct the bind matrices)   *)
(* keeps what is drawn.                                                       *)
EXTENDS GltfEdit, Json
CONSTANTS NNodes, Turns, Scales, NOps
VARIABLES gb, ops, old, cur
B == INSTANCE GltfGen WITH kind <- "", NPrims <- 1, NSkins <- 1, Modes <- {4}
S(x, y, z) == <<1000 * x, 1000 * y, 1000 * z>>
Pos == <<S(0, 0, 1), S(2, 0, 1), S(1, 1, 1), S(0, 2, 1)>>
Prim(J) == [mat |-> 1, mode |-> 4, idx |-> <<0, 1, 2, 2, 1, 3>>, pos |-> Pos, uv |-> <<>>, nrm |-> <<>>, j |-> J, w |-> IF J = <<>> THEN <<>> ELSE [k \in 1..4 |-> <<250, 750, 0, 0>>],
            t |-> <<[k \in 1..4 |-> IF k = 2 THEN S(1, 0, 1) ELSE <<0, 0, 0>>]>>, same |-> 0]
MeshOf(n, J) == [name |-> n, prims |-> <<Prim(J)>>, names |-> <<"t">>]
Skin(J) == [joints |-> J, ibm |-> <<>>, skel |-> 0]
Doc0 == [nodes |-> <<>>, roots |-> <<>>, meshes |-> <<MeshOf("plain", <<>>), MeshOf("skinned", [k \in 1..4 |-> <<0, IF k = 1 THEN 0 ELSE 1, 0, 0>>])>>, skins |-> <<>>, mats |-> <<B!Mat(1)>>,
         layout |-> 0, jbyte |-> TRUE, idxsz |-> 0, anims |-> <<[node |-> 1, path |-> 0, keys |-> <<0, 500>>, vals |-> <<S(0, 1, 0), S(1, 0, 0)>>]>>, bufs |-> 1, sparse |-> FALSE, share |-> FALSE]
Init == gb = Doc0 /\ ops = <<>> /\ old = 0 /\ cur = 0
(* The inverse of a turn with one scale and a move. *)
Squared(m) == RDiv(m[1] * m[1] + m[2] * m[2] + m[3] * m[3])
Undo(m) == LET s == Squared(m)
    L == [i \in 1..16 |-> LET c == ((i - 1) \div 4) + 1 r == ((i - 1) % 4) + 1 IN IF c = 4 \/ r = 4 THEN (IF i = 16 THEN 1 ELSE 0) ELSE (El(m, r, c) * 1000) \div s] IN
  [i \in 1..16 |-> IF i \in 13..15 THEN -RDiv(El(L, 1, i - 12) * m[13] + El(L, 2, i - 12) * m[14] + El(L, 3, i - 12) * m[15]) ELSE L[i]]
ViewOf(d) == LET v == B!ViewOf(d) IN
  [nodes |-> v.nodes, roots |-> v.roots, skins |-> d.skins,
   meshes |-> [i \in DOMAIN d.meshes |-> [d.meshes[i] EXCEPT !.prims = [k \in DOMAIN d.meshes[i].prims |-> [d.meshes[i].prims[k] EXCEPT !.t = [t \in DOMAIN @ |-> [pos |-> @[t]]]]]]]]
(* ---- the design ---------------------------------------------------------------- *)
Scl(p, f) == [i \in 1..3 |-> RDiv(p[i] * f)]
SclMat(m, f) == [m EXCEPT ![13] = RDiv(@ * f), ![14] = RDiv(@ * f), ![15] = RDiv(@ * f)]
Scaled(g, f) == [g EXCEPT
  !.nodes = [n \in DOMAIN @ |-> [@[n] EXCEPT !.m = SclMat(@, f)]],
  !.skins = [s \in DOMAIN @ |-> [@[s] EXCEPT !.ibm = [k \in DOMAIN @ |-> SclMat(@[k], f)]]],
  !.meshes = [i \in DOMAIN @ |-> [@[i] EXCEPT !.prims = [k \in DOMAIN @ |-> [@[k] EXCEPT !.pos = [v \in DOMAIN @ |-> Scl(@[v], f)], !.t = [t \in DOMAIN @ |-> [pos |-> [v \in DOMAIN @[t].pos |-> Scl(@[t].pos[v], f)]]]]]]]]
SizeOf(m) == IF m[1] # 0 THEN Abs(m[1]) ELSE IF m[2] # 0 THEN Abs(m[2]) ELSE Abs(m[3])
TurnPart(m) == [i \in 1..16 |-> IF i \in 13..15 THEN 0 ELSE IF i = 16 THEN 1 ELSE (m[i] * 1000) \div SizeOf(m)]
Straight(m) == LET s == SizeOf(m) IN <<s, 0, 0, 0, 0, s, 0, 0, 0, 0, s, 0, m[13], m[14], m[15], 1>>
RECURSIVE PushDown(_, _)
PushAll(g, C) == FoldLeft(LAMBDA a, c : PushDown(a, c), g, C)
PushDown(g, n) == LET N == g.nodes[n] IN
  IF N.mesh # 0 THEN PushAll(g, N.ch) ELSE
  PushAll([g EXCEPT !.nodes = [k \in DOMAIN @ |-> IF k = n THEN [@[k] EXCEPT !.m = Straight(@)] ELSE IF k \in Rng(N.ch) THEN [@[k] EXCEPT !.m = MatMul(TurnPart(N.m), @)] ELSE @[k]]], N.ch)
Reset(g) == LET h == PushAll(g, g.roots) IN
  [h EXCEPT !.skins = [s \in DOMAIN @ |-> [@[s] EXCEPT !.ibm = [k \in DOMAIN g.skins[s].joints |-> LET j == g.skins[s].joints[k] IN MatMul(Undo(World(h, j)), JointMat(g, s, k))]]]]
Apply(o, g) == TLCEval(CASE o.k = "scale" -> Scaled(g, o.f[1]) [] o.k = "reset" -> Reset(g) [] OTHER -> g)
OpsAt == { [k |-> "scale", f |-> <<2000, 2000, 2000>>, ext |-> ""], [k |-> "reset", f |-> <<>>, ext |-> ""],
           [k |-> "joints", f |-> <<>>, ext |-> ""], [k |-> "embed", f |-> <<>>, ext |-> ""] }
Next ==
  \/ /\ ops = <<>> /\ gb.skins = <<>> /\ Len(gb.nodes) < NNodes
     /\ LET i == Len(gb.nodes) + 1 IN \E p \in 0..(i - 1) : \E t \in Turns : \E s \in (IF i = 1 THEN Scales ELSE {1}) :
        gb' = B!AddNode(gb, p, [B!Node(i, S(i, 2 - i, 0), B!TurnAt(t), B!ScaleAt(s), FALSE, IF i = NNodes THEN 1 ELSE 0) EXCEPT !.asm = (t = 1)])
     /\ UNCHANGED <<ops, old, cur>>
  \/ /\ gb.skins = <<>> /\ Len(gb.nodes) = NNodes
     /\ \E j, k \in 1..NNodes : j # k /\ \E bind \in 0..2 :
        LET d == [gb EXCEPT !.nodes = Append(@, [B!Node(NNodes + 1, S(0, 0, 3), <<0, 0, 1>>, S(1, 1, 1), FALSE, 2) EXCEPT !.skin = 1]), !.roots = Append(@, NNodes + 1)]
            v == B!ViewOf(d)
            M == CASE bind = 0 -> <<>> [] bind = 1 -> <<Undo(World(v, j)), Undo(World(v, k))>> [] OTHER -> <<Undo(World(v, j)), Ident>> IN
        /\ gb' = [d EXCEPT !.skins = <<[joints |-> <<j, k>>, ibm |-> [i \in DOMAIN M |-> [M[i] EXCEPT ![16] = 1000]], skel |-> 0]>>]
        /\ cur' = [ViewOf(d) EXCEPT !.skins = <<[joints |-> <<j, k>>, ibm |-> M, skel |-> 0]>>]
        /\ old' = cur' /\ UNCHANGED ops
  \/ /\ gb.skins # <<>> /\ Len(ops) < NOps
     /\ \E o \in OpsAt : ops' = Append(ops, o) /\ old' = cur /\ cur' = Apply(o, cur)
     /\ UNCHANGED gb
Laws == gb.skins = <<>> \/ ops = <<>> \/
  LET o == ops[Len(ops)] rel == IF o.k = "scale" THEN o.f ELSE Alike IN
  /\ SameDrawing(old, cur, rel, TRUE)
  /\ SamePlaces(old, cur, rel)
  /\ (o.k = "reset" => \A n \in DOMAIN cur.nodes : cur.nodes[n].mesh = 0 => NoTurn(cur.nodes[n].m))
Emit == IF Len(ops) = NOps THEN PrintT("CASE " \o ToJson([gb |-> gb, ops |-> ops, text |-> Len(gb.roots) % 2 = 0])) ELSE TRUE
=============================================================================
