--------------------------- MODULE GltfExtrasGen ----------------------------
(* The conversion as a walk over the objects: every object gets a node below  *)
(* the last one of a smaller depth whose place leaves its children alone, a    *)
(* light gets its own node when something else hangs on the object's, and the  *)
(* bodies are collected on their nodes.  Checked for every small document:     *)
(* the file it yields satisfies the requirements of GltfExtras.                *)
EXTENDS GltfExtras, Json
CONSTANTS Rich
VARIABLES c, at, g, path, phase
vars == <<c, at, g, path, phase>>

TA == [r |-> <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, t |-> <<2000, 0, -500>>, s |-> <<1000, 1000, 1000>>]
TB == [r |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, t |-> <<0, 1000, 0>>, s |-> <<2000, 2000, 2000>>]
Verts(i) == <<<<1000 * i, 0, 0>>, <<1000 * i, 2000, 0>>, <<1000 * i, 0, 1500>>>>
Light(i) == [type |-> IF i = 1 THEN "point" ELSE "spot", int |-> 500 * i, rng |-> 3000, col |-> <<1000, 500, 0>>]
Obj(i, d, vis, mesh, light, t) == [name |-> "o" \o ToString(i), depth |-> d, vis |-> vis, verts |-> IF mesh THEN Verts(i) ELSE <<>>, mat |-> 0,
                                   light |-> IF light THEN <<Light(i)>> ELSE <<>>, at |-> t]
Mat(on, nums, cols, maps) == [name |-> "m", shd |-> "glTF", on |-> on, off |-> <<>>, nums |-> nums, cols |-> cols, maps |-> maps, used |-> TRUE]
Plain == Mat(<<>>, <<[k |-> "Metallic", v |-> 500], [k |-> "Roughness", v |-> 500]>>, <<>>, <<>>)
Bones == <<[id |-> 1, name |-> "b1", parent |-> 0, pos |-> <<0, 1000, 0>>], [id |-> 2, name |-> "b2", parent |-> 1, pos |-> <<500, 2000, 0>>]>>
Shape(k) == [type |-> IF k = 1 THEN "BOX" ELSE "SPHERE", size |-> <<500 * k, 1000, 250>>, pos |-> <<1000, -500 * k, 250>>]
Body(b, o, n, kin) == [bone |-> b, obj |-> o, mass |-> 1500, kin |-> kin, group |-> 3, mask |-> 7, shapes |-> [k \in 1..n |-> Shape(k)]]
Case(mats, objs, bones, bodies, lights, physics, flat) ==
  [mats |-> mats, objs |-> objs, bones |-> bones, bodies |-> bodies, scale |-> 1000, lights |-> lights, physics |-> physics, unlit |-> FALSE, flat |-> flat]

(* one extension with any of its settings, beside another one *)
Shaders == UNION { { Mat(<<e.sw>> \o o, SetToSeq({ [k |-> p[1], v |-> 250] : p \in N }), SetToSeq({ [k |-> p[1], v |-> <<500, 0, 1000, 1000>>] : p \in e.cols }), SetToSeq({ [k |-> p[1], f |-> f] : p \in M }))
    : N \in SUBSET e.nums, M \in SUBSET e.maps, f \in {"a.png", "gone.png"}, o \in { <<>>, <<"Extensions.Ior">>, <<"Extensions.Unlit">> } } : e \in Exts }
One == <<Obj(1, 0, TRUE, TRUE, FALSE, <<>>)>>
MatCases == { Case(<<m>>, One, <<>>, <<>>, FALSE, FALSE, FALSE) : m \in Shaders }
           \cup { Case(<<Mat(SetToSeq({ e.sw : e \in S }), <<>>, <<>>, <<>>)>>, One, <<>>, <<>>, FALSE, FALSE, FALSE) : S \in SUBSET Exts }
ObjKinds(i, d) == { Obj(i, d, vis, mesh, light, t) : vis \in BOOLEAN, mesh \in BOOLEAN, light \in BOOLEAN, t \in { <<>>, <<TA>>, <<TB>> } }
ObjCases == { Case(<<Plain>>, <<a, b>>, <<>>, <<>>, TRUE, FALSE, flat) : a \in ObjKinds(1, 0), b \in UNION { ObjKinds(2, d) : d \in 0..1 }, flat \in BOOLEAN }
BodyKinds == { Body(b, o, n, kin) : b \in 0..3, o \in 0..3, n \in 0..2, kin \in BOOLEAN }
BodyCases == { Case(<<Plain>>, <<Obj(1, 0, TRUE, TRUE, l, <<TA>>), Obj(2, 1, TRUE, FALSE, FALSE, <<>>)>>, Bones, <<a, b>>, TRUE, p, FALSE)
                 : a \in BodyKinds, b \in { x \in BodyKinds : Rich \/ (x.shapes # <<>> /\ ~x.kin) }, l \in BOOLEAN, p \in { q \in BOOLEAN : Rich \/ q } }

(* ---- the walk --------------------------------------------------------------- *)
Node(nm, m, mesh) == [name |-> nm, ch |-> <<>>, mesh |-> mesh, skin |-> 0, m |-> m]
Bare == [light |-> <<>>, phys |-> <<>>]
Phys(S, off) == IF S = {} THEN <<>> ELSE LET shapes == Flat([k \in 1..Cardinality(S) |-> c.bodies[SetToSortSeq(S, <)[k]].shapes]) IN
  <<[shapes |-> [k \in DOMAIN shapes |-> [shapes[k] EXCEPT !.pos = [r \in 1..3 |-> shapes[k].pos[r] - off[r]]]], boxes |-> [k \in DOMAIN shapes |-> shapes[k].size],
     mass |-> MassOf(c, S), static |-> \E i \in S : c.bodies[i].kin, group |-> c.bodies[Min(S)].group, mask |-> c.bodies[Min(S)].mask]>>
Mesh(o) == [name |-> o.name, prims |-> <<[mat |-> 0, mode |-> 0, idx |-> <<2, 1, 0>>, pos |-> o.verts]>>, names |-> <<>>]
BoneNodes == [b \in DOMAIN c.bones |-> LET p == c.bones[b].parent IN
  [Node(c.bones[b].name, MoveOf(IF p = 0 THEN c.bones[b].pos ELSE [r \in 1..3 |-> c.bones[b].pos[r] - c.bones[p].pos[r]]), 0)
     EXCEPT !.ch = SetToSeq({ k \in DOMAIN c.bones : c.bones[k].parent = b })]]
Empty == [nodes |-> <<>>, roots |-> <<>>, meshes |-> <<>>, skins |-> <<>>, mats |-> <<>>, xmats |-> <<>>, xnodes |-> <<>>, ext |-> <<>>, refs |-> <<>>, xdoc |-> <<>>]
Init == /\ c \in MatCases \cup ObjCases \cup BodyCases
        /\ at = 1 /\ path = <<>> /\ phase = "walk"
        /\ g = [Empty EXCEPT !.nodes = BoneNodes, !.roots = SetToSeq({ b \in DOMAIN c.bones : c.bones[b].parent = 0 }),
                             !.xnodes = [b \in DOMAIN c.bones |-> [Bare EXCEPT !.phys = Phys(OnBone(c, b), c.bones[b].pos)]]]
\* hang node k below the last node of the path, or at the root
Hang(h, p, k) == IF p = <<>> \/ c.flat THEN [h EXCEPT !.roots = Append(@, k)] ELSE [h EXCEPT !.nodes[p[Len(p)][1]].ch = Append(@, k)]
Step ==
  LET o == c.objs[at]
      p == SelectSeq(path, LAMBDA x : x[2] < o.depth)
      drawn == at \in Drawn(c)
      lit == at \in Lit(c)
      placed == lit /\ o.at # <<>>
      own == placed /\ (drawn \/ c.physics)
      k == Len(g.nodes) + 1
      h1 == IF drawn THEN [g EXCEPT !.meshes = Append(@, Mesh(o))] ELSE g
      n == Node(o.name, IF placed /\ ~own THEN MatrixOf(o.at[1]) ELSE Ident, IF drawn THEN Len(h1.meshes) ELSE 0)
      x == [light |-> IF lit /\ ~own THEN o.light ELSE <<>>, phys |-> Phys(OnObj(c, at), <<0, 0, 0>>)]
      h2 == Hang([h1 EXCEPT !.nodes = Append(@, n), !.xnodes = Append(@, x)], p, k)
      h3 == IF own THEN Hang([h2 EXCEPT !.nodes = Append(@, Node(o.name, MatrixOf(o.at[1]), 0)), !.xnodes = Append(@, [light |-> o.light, phys |-> <<>>])], p, k + 1) ELSE h2 IN
  /\ phase = "walk" /\ at <= Len(c.objs) /\ at' = at + 1
  /\ IF Exported(c, at) THEN g' = h3 /\ path' = IF n.m = Ident THEN Append(p, <<k, o.depth>>) ELSE p
                        ELSE UNCHANGED <<g, path>>
  /\ UNCHANGED <<c, phase>>
ExtView(m, e) == LET pair(q) == [k |-> q[1], v |-> q[2]] IN
  [name |-> e.n, nums |-> SetToSeq({ pair(q) : q \in WantNums(m, e) }), cols |-> SetToSeq({ pair(q) : q \in WantCols(m, e) }),
   texs |-> SetToSeq({ [k |-> q[1], f |-> q[2]] : q \in WantTexs(m, e, <<"a.png">>) }), odd |-> 0]
MatView(m) == [name |-> m.name, exts |-> SetToSeq({ ExtView(m, e) : e \in Switched(m) } \cup
   (IF Unlit(c, m) THEN {[name |-> UnlitName, nums |-> <<>>, cols |-> <<>>, texs |-> <<>>, odd |-> 0]} ELSE {}))]
Finish == /\ phase = "walk" /\ at > Len(c.objs) /\ phase' = "done"
          /\ LET h == [g EXCEPT !.xmats = SetToSeq({ MatView(c.mats[m]) : m \in UsedMats(c) })] IN g' = [h EXCEPT !.ext = SetToSeq(InUse(h))]
          /\ UNCHANGED <<c, at, path>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* parents never move their children
PathStill == \A k \in DOMAIN path : IsIdent(World(g, path[k][1]), 0)
Laws == PathStill /\ (phase = "done" => ExtrasBroken(c, <<"a.png">>, g) = {})
Emit == phase = "done" => PrintT("CASE " \o ToJson(c))
=============================================================================
