------------------------------ MODULE MqoStore ------------------------------
(* C03.  An MQO document in memory, edited, saved (plain .mqo with its .mqx   *)
(* companion, or zipped .mqoz) and loaded again, in any order and any number  *)
(* of times.  Save(f) puts Canon(mem) on disk; Load(f) brings exactly that    *)
(* back.  The canonical form is the part of the document the format can      *)
(* express; the only edit Save performs in memory is to make names unique.    *)
EXTENDS Common

VARIABLES mem,   \* the document in memory
          disk,  \* format -> stored document or None
          hist   \* operations so far (for replaying into the implementation)

Formats == {"mqo", "mqoz"}
None == [none |-> TRUE]
EmptyDoc == [scene |-> <<>>, mats |-> <<>>, objs |-> <<>>, bones |-> <<>>,
             morphs |-> <<>>, bodies |-> <<>>, joints |-> <<>>, boneobj |-> <<>>,
             limit |-> 0, poses |-> <<>>, plugins |-> <<>>]

(***************************** Unique names *********************************)
RECURSIVE FreeName(_, _, _)
FreeName(taken, n, k) ==
  LET c == n \o "_" \o ToString(k) IN IF c \in taken THEN FreeName(taken, n, k + 1) ELSE c
(* The first of several equal names is kept; the others get unused ones.      *)
RECURSIVE UniqueNames(_, _, _)
UniqueNames(names, seen, taken) ==
  IF names = <<>> THEN <<>>
  ELSE LET n == Head(names)
           u == IF n \in seen THEN FreeName(taken, n, 2) ELSE n
       IN <<u>> \o UniqueNames(Tail(names), seen \cup {u}, taken \cup {u})
WithNames(recs) ==
  LET ns == Map(recs, LAMBDA r : r.name)
      u == UniqueNames(ns, {}, Rng(ns))
  IN [ i \in DOMAIN recs |-> [recs[i] EXCEPT !.name = u[i]] ]
(* Which renamings are allowed (WithNames is one of them). *)
NamesOk(a, b) ==
  /\ Len(a) = Len(b) /\ NoDup(Map(b, LAMBDA r : r.name))
  /\ \A i \in DOMAIN a : HasPrefix(b[i].name, a[i].name) /\ ((\A k \in 1..(i - 1) : a[k].name # a[i].name) => b[i].name = a[i].name)
TakeNames(a, b) == [i \in DOMAIN a |-> [a[i] EXCEPT !.name = b[i].name]]

Named(d) == [d EXCEPT !.mats = WithNames(@), !.objs = WithNames(@)]

(************************** Canonical (stored) form *************************)
Pos0(x) == IF x > 0 THEN x ELSE 0
Slash(s) == MapChars(s, LAMBDA c : IF c = "\\" THEN "/" ELSE c)
CanonMat(m) == [m EXCEPT !.uid = Pos0(@), !.tex = Slash(@), !.alpha = Slash(@), !.bump = Slash(@)]
CanonFace(f) == [f EXCEPT !.uid = Pos0(@),
                          !.uv = IF Len(f.uv) = Len(f.v) THEN @ ELSE <<>>,
                          !.n = IF Len(f.n) = Len(f.v) THEN @ ELSE <<>>]
CanonObj(o) == [o EXCEPT !.uid = Pos0(@), !.patch = Pos0(@),
                         !.seg = IF o.patch > 0 THEN @ ELSE 0,
                         !.faces = Map(@, CanonFace)]
CanonScene(s) == [s EXCEPT !.front = Pos0(@), !.back = Pos0(@)]

(* Identifier under which bones refer to an object. *)
ObjId(d, i) == IF d.objs[i].uid > 0 THEN d.objs[i].uid ELSE i
Weighted(d) == { w.o : w \in UNION { Rng(b.w) : b \in Rng(d.bones) } }
WeightedObjs(d) == { ObjId(d, i) : i \in DOMAIN d.objs } \cap Weighted(d)

CanonAs(d) ==
  [d EXCEPT !.scene = Map(@, CanonScene), !.mats = Map(@, CanonMat), !.objs = Map(@, CanonObj)]
Canon(d) == CanonAs(Named(d))

(********************************* Actions **********************************)
Add(what, val) == /\ mem' = [mem EXCEPT ![what] = Append(@, val)]
                  /\ UNCHANGED disk
(* named: the document with the names it is stored under. *)
SaveAs(f, named) == /\ disk' = [disk EXCEPT ![f] = CanonAs(named)]
                    /\ mem' = named
Save(f) == SaveAs(f, Named(mem))
Load(f) == /\ disk[f] # None
           /\ mem' = disk[f]
           /\ UNCHANGED disk

(********************** Bounded model: small archetypes *********************)
CONSTANTS MaxAdd, MaxIO

V(x, y, z) == <<x, y, z>>
Mat0 == [name |-> "a", uid |-> 0, shader |-> 3, dbl |-> FALSE, col |-> <<1000, 500, 250, 1000>>,
         dif |-> 800, amb |-> 600, emi |-> 100, spc |-> 50, pow |-> 5000, tex |-> "", alpha |-> "",
         bump |-> "", emicol |-> <<>>, ex2 |-> <<>>]
Mats == { Mat0,
          [Mat0 EXCEPT !.name = "a_2", !.tex = "t\\x.png", !.alpha = "al.png", !.dbl = TRUE, !.uid = 7],
          [Mat0 EXCEPT !.emicol = <<100, 200, 300>>, !.bump = "b\\c\\d.png",
             !.ex2 = << [type |-> "hlsl", name |-> "glTF",
                params |-> << [k |-> "AlphaMode", t |-> "int", v |-> <<-3>>, s |-> ""],
                              [k |-> "Base", t |-> "color", v |-> <<1000, 0, 500, 1000>>, s |-> ""],
                              [k |-> "Lit", t |-> "bool", v |-> <<1>>, s |-> ""],
                              [k |-> "Rough.x", t |-> "float", v |-> <<-1500>>, s |-> ""] >>,
                maps |-> << [k |-> "BaseTex", s |-> "u.png"] >>,
                mparams |-> << [k |-> "BaseTex", p |-> << [k |-> "uv", t |-> "int", v |-> <<1>>, s |-> ""] >>] >>] >>] }
Face3 == [v |-> <<0, 1, 2>>, m |-> 0, uid |-> 0, uv |-> <<>>, n |-> <<>>]
Obj0 == [name |-> "o", uid |-> 0, depth |-> 0, fold |-> FALSE, vis |-> TRUE, lock |-> FALSE, shading |-> 1,
         facet |-> 59500, patch |-> 0, seg |-> 0, mirror |-> 0, mdis |-> 0,
         scale |-> V(1000, 1000, 1000), rot |-> V(0, 0, 0), trans |-> V(0, 0, 0), color |-> <<>>,
         verts |-> << V(0, 0, 0), V(1000, 0, 0), V(0, 1000, -2000) >>, faces |-> << Face3 >>, vuids |-> <<>>]
Objs == { Obj0,
          [Obj0 EXCEPT !.uid = 9, !.depth = 1, !.vis = FALSE, !.lock = TRUE, !.vuids = <<5, 3, 8>>,
             !.rot = V(10000, -20000, 30000), !.faces = << [Face3 EXCEPT !.m = -1, !.uid = 4,
                !.uv = << <<0, 500>>, <<1000, -1000>>, <<250, 0>> >>,
                !.n = << V(0, 1000, 0), <<>>, V(0, 0, -1000) >>] >>],
          [Obj0 EXCEPT !.name = "o_2", !.fold = TRUE, !.patch = 2, !.seg = 3, !.mirror = 1, !.mdis = 500,
             !.color = V(100, 200, 300), !.faces = << [Face3 EXCEPT !.v = <<2, 1>>], [Face3 EXCEPT !.v = <<0, 1, 2, 1>>] >>] }
Bones == { [id |-> 1, name |-> "b", group |-> 0, parent |-> 0, pos |-> V(0, 1000, -500), movable |-> 1, hide |-> 0,
            dummy |-> 0, color |-> "", up |-> <<>>, rotate |-> <<>>, ik |-> <<>>,
            w |-> << [o |-> 1, v |-> << <<1, 100000>>, <<2, 25500>> >>], [o |-> 9, v |-> << <<3, 500>> >>] >>],
           [id |-> 2, name |-> "c", group |-> 1, parent |-> 1, pos |-> V(0, 0, 0), movable |-> 0, hide |-> 1,
            dummy |-> 1, color |-> "ff", up |-> V(0, 1000, 0), rotate |-> V(1000, 2000, 3000),
            ik |-> << [chain |-> 2, name |-> "i", tip |-> "t"] >>, w |-> <<>>] }
Morphs == { [base |-> "o", targets |-> << [name |-> "o_2", param |-> 50], [name |-> "x", param |-> -1] >>] }
Bodies == { [name |-> "rb", mass |-> 1500, kin |-> TRUE, group |-> 3, mask |-> 65535, rest |-> 500, fric |-> 250,
             ld |-> 0, ad |-> 1000, tb |-> 1, to |-> 0,
             shapes |-> << [type |-> "BOX", size |-> V(1000, 2000, 3000), pos |-> V(0, -500, 0), rot |-> V(0, 0, 0)] >>] }

NAdd == Cardinality({ i \in DOMAIN hist : hist[i].op = "add" })
NIO == Len(hist) - NAdd
AddStep(what, val) == /\ NAdd < MaxAdd
                      /\ Add(what, val)
                      /\ hist' = Append(hist, [op |-> "add", what |-> what, val |-> val])
SaveStep(f) == NIO < MaxIO /\ Save(f) /\ hist' = Append(hist, [op |-> "save", fmt |-> f])
LoadStep(f) == NIO < MaxIO /\ Load(f) /\ hist' = Append(hist, [op |-> "load", fmt |-> f])

Init == mem = EmptyDoc /\ disk = [f \in Formats |-> None] /\ hist = <<>>
Next == \/ \E v \in Mats : AddStep("mats", v)
        \/ \E v \in Objs : AddStep("objs", v)
        \/ \E v \in Bones : AddStep("bones", v)
        \/ \E v \in Morphs : AddStep("morphs", v)
        \/ \E v \in Bodies : AddStep("bodies", v)
        \/ \E f \in Formats : SaveStep(f) \/ LoadStep(f)
Spec == Init /\ [][Next]_<<mem, disk, hist>>

(******************************* Properties *********************************)
(* What is on disk is a fixpoint: another cycle cannot change it.            *)
StoredStable == \A f \in Formats : disk[f] # None => Canon(disk[f]) = disk[f]
(* Stored names identify objects and materials uniquely.                     *)
StoredNamesUnique ==
  \A f \in Formats : disk[f] # None =>
     NoDup(Map(disk[f].objs, LAMBDA o : o.name)) /\ NoDup(Map(disk[f].mats, LAMBDA o : o.name))
(* Loading brings back exactly what the last save of that format stored.     *)
LoadFaithful == [][\A f \in Formats : LoadStep(f) => Canon(mem') = disk[f]]_<<mem, disk, hist>>
(* The renaming is an allowed one.                                          *)
RenamingAllowed == NamesOk(mem.objs, Named(mem).objs) /\ NamesOk(mem.mats, Named(mem).mats)
(* Saving never alters anything of the document but duplicate names.         *)
SavePreserves == [][\A f \in Formats : SaveStep(f) =>
     /\ Len(mem'.objs) = Len(mem.objs)
     /\ \A i \in DOMAIN mem.objs : mem'.objs[i] = [mem.objs[i] EXCEPT !.name = mem'.objs[i].name]
     /\ mem'.bones = mem.bones /\ mem'.morphs = mem.morphs]_<<mem, disk, hist>>
=============================================================================
