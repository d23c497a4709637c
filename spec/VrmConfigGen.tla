---------------------------- MODULE VrmConfigGen -----------------------------
(* Small models and configurations, one concern at a time: humanoid bones,    *)
(* expressions, spring chains, physics, collider references, materials.       *)
EXTENDS VrmConfig, Json
CONSTANTS Rich
VARIABLES S
Nd(n, kids, mesh, body) == [name |-> n, kids |-> kids, mesh |-> mesh, body |-> body, shapes |-> IF body = "static" THEN << [t |-> "SPHERE", r |-> 250, at |-> <<0, 500, 0>>], [t |-> "BOX", r |-> 250, at |-> <<0, 0, 0>>] >> ELSE <<>>]
Cf == [title |-> "t", bones |-> <<>>, morphs |-> <<>>, mats |-> <<>>, groups |-> <<>>, cols |-> <<>>, all |-> FALSE, phys |-> FALSE, colphys |-> FALSE]
Cs(nodes, meshes, mats, conf, preset, loaded) == [nodes |-> nodes, meshes |-> meshes, mats |-> mats, conf |-> conf, preset |-> preset, embed |-> "", lost |-> FALSE, loaded |-> loaded, file |-> loaded]
Bn(b, names) == [bone |-> b, names |-> names, lim |-> FALSE, old |-> FALSE]
Mo(n, node, t, i, v) == [name |-> n, node |-> node, target |-> t, idx |-> i, vals |-> v]
Gr(tag, pats, cg, ctr) == [tag |-> tag, pats |-> pats, cg |-> cg, center |-> ctr]
Pres(bones) == IF bones = <<>> THEN <<>> ELSE << [Cf EXCEPT !.bones = bones] >>
UpTo(X, n) == UNION { [1..k -> X] : k \in 0..n }

BoneCases ==
  LET X == { Bn("hips", <<>>), Bn("hips", <<"A">>), Bn("head", <<"A">>), Bn("head", <<>>), Bn("head", <<"face", "nothing", "B">>), Bn("head", <<"B", "A">>), Bn("neck", <<"head">>) } IN
  { Cs(<< Nd("A", <<2>>, 0, ""), Nd("B", <<3>>, 0, ""), Nd(h, <<>>, hm, ""), Nd("face", <<>>, 1, "") >>, << <<>> >>, <<>>, [Cf EXCEPT !.bones = e], Pres(p), FALSE) :
    e \in UpTo(X, 2), p \in UpTo(X, IF Rich THEN 2 ELSE 1), h \in {"head", "C"}, hm \in {0, 1} }
ExprCases ==
  LET X == { Mo("joy", "", t, 0, v) : t \in {"a", "c", "nothing"}, v \in { <<>>, <<"skin">> } } \cup { Mo("A", n, "", i, v) : n \in {"face", "A", "nothing", ""}, i \in {-1, 0, 1, 2}, v \in { <<>>, <<"skin">> } } IN
  { Cs(<< Nd("A", <<2>>, 0, ""), Nd("face", <<>>, 1, ""), Nd("m2", <<>>, 2, ""), Nd(x, <<>>, 0, "") >>, << <<"a", "b">>, <<"c">> >>, <<>>, [Cf EXCEPT !.morphs = q.m, !.all = all], <<>>, ld) :
    q \in { [m |-> m] : m \in UpTo(X, IF Rich THEN 2 ELSE 1) } \cup { [m |-> <<a, b>>] : a \in { Mo("joy", "", "a", 0, <<>>), Mo("A", "face", "", 1, <<>>) }, b \in X }, all \in BOOLEAN, ld \in BOOLEAN, x \in {"", "n"} }
Up(p, k) == IF k = 0 THEN 0 ELSE p[k]
Forests == { p \in [1..4 -> 0..4] : \A k \in 1..4 : Up(p, Up(p, Up(p, Up(p, k)))) = 0 }
Names4 == <<"hair1", "hair2", "h3", "x">>
KidsOf(p, i) == SetToSortSeq({ k \in 1..4 : p[k] = i }, LAMBDA a, b : a < b)
Tree(p, mesh, body) == [i \in 1..4 |-> Nd(Names4[i], KidsOf(p, i), IF i = mesh THEN 1 ELSE 0, body[i])]
NoBody == [i \in 1..4 |-> ""]
SpringCases ==
  LET G == { <<"hair*">>, <<"h*">>, <<"hair2">>, <<"x", "*">>, <<"hair?", "h3">> } IN
  { Cs(Tree(p, m, NoBody), << <<>> >>, <<>>, [Cf EXCEPT !.groups = g], <<>>, FALSE) : p \in Forests, m \in {0, 3}, g \in { << Gr("g1", a, <<>>, -1) >> : a \in G } \cup (IF Rich THEN { << Gr("g1", a, <<>>, -1), Gr("g2", b, <<>>, 9) >> : a, b \in G } ELSE { << Gr("g1", <<"hair2">>, <<>>, -1), Gr("g2", <<"*">>, <<>>, 9) >> }) }
PhysCases == { Cs(Tree(p, 0, b), <<>>, <<>>, [Cf EXCEPT !.phys = TRUE, !.colphys = TRUE, !.groups = g], <<>>, FALSE) :
    p \in Forests, b \in { b \in [1..4 -> {"", "dyn", "static"}] : Rich \/ (b[4] # "static" /\ b[1] = "dyn") }, g \in (IF Rich THEN { <<>>, << Gr("g1", <<"h3">>, <<>>, 1) >> } ELSE { <<>> }) }
ColCases ==
  LET C(n, r) == [node |-> n, cols |-> << [r |-> r, at |-> <<0, 0, 500>>] >>]
      L == { <<>>, << C("h3", 1000) >>, << C("nothing", 2000), C("x", 3000) >>, << C("", 500), C("hair1", 750), C("h3", 250) >> }
      I == { <<>>, <<0>>, <<1>>, <<1, 0>>, <<2, 7>> } IN
  { Cs(Append(Tree(<<0, 1, 2, 0>>, 0, [i \in 1..4 |-> IF i = 4 THEN b ELSE ""]), Nd("", <<>>, 0, "")), <<>>, <<>>, [Cf EXCEPT !.cols = a, !.groups = << Gr("g1", <<"hair1">>, ci, 0) >>, !.colphys = TRUE], << [Cf EXCEPT !.cols = q, !.groups = << Gr("g2", <<"x">>, cj, -1) >>] >>, FALSE) :
    a \in L, q \in L, ci \in I, cj \in I, b \in {"", "static"} }
(* A list index past its own list but inside the joined one means nothing sure. *)
Sure(c) == \A g \in DOMAIN c.conf.groups : \A k \in DOMAIN c.conf.groups[g].cg : c.conf.groups[g].cg[k] < Len(c.conf.cols) \/ c.conf.groups[g].cg[k] = 7
MatCases ==
  LET K == { [key |-> k, unlit |-> u, mode |-> m, alpha |-> a] : k \in {"skin", "*"}, u \in BOOLEAN, m \in {"", "mask"}, a \in {0, 500} } IN
  { Cs(<< Nd("A", <<>>, 0, "") >>, <<>>, << [name |-> "skin", mode |-> "blend", a |-> a], [name |-> "cloth", mode |-> "opaque", a |-> 250] >>, [Cf EXCEPT !.mats = x], IF y = <<>> THEN <<>> ELSE << [Cf EXCEPT !.mats = y] >>, ld) :
    a \in {-2, -1, 1000}, x \in UpTo(K, 1), y \in UpTo(K, 1), ld \in BOOLEAN }
Init == S \in BoneCases \cup ExprCases \cup SpringCases \cup PhysCases \cup { c \in ColCases : Sure(c) } \cup MatCases
Next == FALSE /\ UNCHANGED S
Spec == Init /\ [][Next]_S

(* ---- the design ---------------------------------------------------------------- *)
OneToOne == LET M == WithDefaults(S).map IN \A x, y \in M : x # y => x.bone # y.bone /\ x.node # y.node
OnBones == \A x \in WithDefaults(S).map : S.nodes[x.node].mesh = 0
ExplicitWins == \A x \in Mapped([S EXCEPT !.preset = <<>>]).map : x \in WithDefaults(S).map
Apart == LET sp == SpringWanted(S) all == UNION { {i} \X sp[i].bones : i \in DOMAIN sp } IN \A x, y \in all : x # y => Below(S, x[2]) \cap Below(S, y[2]) = {}
Covered == S.conf.phys => \A i \in DOMAIN S.nodes : Swings(S, i) => Cardinality({ t \in ChainTops(S) : i \in Below(S, t) }) = 1
Matched == \A g \in DOMAIN S.conf.groups : Len(S.conf.groups) = 1 /\ S.preset = <<>> =>
   \A k \in DOMAIN S.conf.groups[g].pats : \A i \in Matching(S, S.conf.groups[g].pats[k]) \cap BoneNodes(S) : (\A p \in DOMAIN S.nodes : i \in Below(S, p) => S.nodes[p].mesh = 0) =>
      \E s \in DOMAIN SpringWanted(S) : \E b \in SpringWanted(S)[s].bones : i \in Below(S, b) \/ b \in Below(S, i)
Laws == OneToOne /\ OnBones /\ ExplicitWins /\ Apart /\ Covered /\ Matched
Emit == PrintT("CASE " \o ToJson(S))
=============================================================================
