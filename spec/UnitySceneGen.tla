--------------------------- MODULE UnitySceneGen -----------------------------
(* Files built item by item: C is a prefab, B a prefab that may contain C, A  *)
(* the scene.  Parents are objects of the file or of what an instance brought.*)
EXTENDS UnityScene, Json
CONSTANTS NB, NA, Rich

VARIABLES F, phase
vars == <<F, phase>>
C0(t, nums, refs) == [t |-> t, nums |-> nums, refs |-> refs]
CompsNo(k) == CASE k = 0 -> <<>> [] k = 1 -> << C0("MF", <<>>, <<"aa:5">>), C0("MR", <<1>>, <<"m1:21", "m2:21">>) >>
  [] OTHER -> << C0("BX", <<0, 1000, 2000, 3000, 1000, 1000, 2000>>, <<>>), C0("RB", <<2000, 0, 500, 1, 0>>, <<>>), C0("XX", <<>>, <<>>) >>
Obj(id, k, parent) == [k |-> "obj", id |-> id, name |-> "n" \o ToString(id), tag |-> IF k = 1 THEN "MainCamera" ELSE "Untagged", act |-> IF k = 2 THEN 0 ELSE 1,
  pos |-> <<1000 * id, 0, 500>>, rot |-> IF k = 1 THEN <<1, 0, 1>> ELSE IF k = 2 THEN <<0, 3, 0>> ELSE <<0, 0, 0>>, scl |-> IF k = 2 THEN <<2000, 1000, 1000>> ELSE <<1000, 1000, 1000>>,
  comps |-> CompsNo(k), parent |-> parent, kids |-> <<>>]
Inst(id, src, parent, mods) == [k |-> "inst", id |-> id, src |-> src, parent |-> parent, mods |-> mods]
Junk(id, how) == [k |-> "junk", id |-> id, how |-> how, parent |-> <<>>]
Mod(key, at, f, i, v) == [key |-> key, at |-> at, f |-> f, i |-> i, v |-> v]
ModsNo(g, k) == CASE k = 0 -> <<>>
  [] k = 1 -> << Mod(<<1>>, 0, "name", 0, "7"), Mod(<<1>>, -1, "pos", 3, -1500) >>
  [] k = 2 -> << Mod(<<2>>, 0, "act", 0, 0), Mod(<<2>>, -1, "rot", 0, <<2, 0, 1>>), Mod(<<1>>, 1, "ref", 1, "bb:7"), Mod(<<9>>, 0, "name", 0, "nobody") >>
  [] OTHER -> << Mod(<<2>>, -1, "scl", 1, -1000), Mod(IF g = "B" THEN <<3, 1>> ELSE <<1>>, -1, "pos", 1, 250), Mod(<<1>>, 2, "num", 1, 0) >>

Keys(roots) == LET RECURSIVE All(_) All(n) == <<n.key>> \o Flat([i \in DOMAIN n.kids |-> All(n.kids[i])]) IN Rng(Flat([i \in DOMAIN roots |-> All(roots[i])]))
(* Put item it into file g; a parent of the same file may list it (first or last) or not. *)
Listing(X, p, id, how) == [X EXCEPT ![CHOOSE i \in DOMAIN X : X[i].id = p].kids = IF how = 0 THEN Append(@, id) ELSE <<id>> \o @]
Into(g, it, how) == LET X == Append(F[g], it) IN
  IF it.k # "junk" /\ Len(it.parent) = 1 /\ (it.k = "obj" \/ how < 2) /\ \E i \in DOMAIN F[g] : F[g][i].id = it.parent[1] /\ F[g][i].k = "obj" THEN [F EXCEPT ![g] = Listing(X, it.parent[1], it.id, how % 2)] ELSE [F EXCEPT ![g] = X]

Init == /\ F = ("A" :> <<>> @@ "B" :> << Obj(1, 1, <<>>) >> @@ "C" :> << [Obj(1, 1, <<>>) EXCEPT !.kids = <<2>>], Obj(2, 2, <<1>>) >>)
        /\ phase = "B"
Size(g) == IF g = "B" THEN NB ELSE NA
Srcs(g) == IF g = "B" THEN {"C"} ELSE {"B", "C", "none", "A"}
Add == \E g \in {phase} : /\ Len(F[g]) < Size(g)
  /\ LET id == Len(F[g]) + 1 K == TLCEval(Keys(Scene(F, g))) IN
     \E p \in (IF g = "B" THEN K ELSE K \cup {<<>>}) :
       \/ \E k \in 0..2 : \E how \in 0..1 : F' = Into(g, Obj(id, k, p), how)
       \/ \E s \in Srcs(g) : \E m \in 0..(IF Rich THEN 3 ELSE 2) : \E how \in {0, 2} : F' = Into(g, Inst(id, s, p, ModsNo(s, m)), how)
       \/ Rich /\ p = <<>> /\ \E h \in {"null", "syntax", "empty", "old"} : F' = Into(g, Junk(id, h), 0)
  /\ UNCHANGED phase
Finish == phase = "B" /\ phase' = "A" /\ UNCHANGED F
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- the design --------------------------------------------------------------- *)
RECURSIVE CountOf(_, _, _)
RootsIn(X, g) == { i \in DOMAIN X[g] : X[g][i].k \in {"obj", "inst"} /\ X[g][i].parent = <<>> }
RECURSIVE Keeps(_)
Keeps(n) == 1 + SumSeq([i \in DOMAIN n.kids |-> Keeps(n.kids[i])])
Usable(it) == it.src \in {"B", "C"}
CountOf(X, g, k) == SumSeq([i \in DOMAIN X[g] |-> IF X[g][i].k = "obj" THEN 1 ELSE IF X[g][i].k = "inst" /\ Usable(X[g][i]) THEN (IF k = 0 THEN 0 ELSE CountOf(X, X[g][i].src, k - 1)) ELSE 0])
Once(A) == SumSeq([i \in DOMAIN A |-> Keeps(A[i])]) = CountOf(F, "A", 3)
(* Instances differ from what they are instances of only where modified. *)
Plain(X) == [g \in DOMAIN X |-> [i \in DOMAIN X[g] |-> IF X[g][i].k = "inst" THEN [X[g][i] EXCEPT !.mods = <<>>] ELSE X[g][i]]]
Targets == UNION { IF it.k = "inst" THEN { it.mods[j].key : j \in DOMAIN it.mods } ELSE {} : it \in Rng(F["A"]) \cup Rng(F["B"]) }
Suffix(k) == { SubSeq(k, i, Len(k)) : i \in 1..Len(k) }
RECURSIVE Pairs(_, _)
Pairs(a, b) == <<<<a, b>>>> \o Flat([i \in DOMAIN a.kids |-> Pairs(a.kids[i], b.kids[i])])
Independent(A) == LET B == TLCEval(Scene(Plain(F), "A")) T == TLCEval(Targets) IN Len(A) = Len(B) /\ \A i \in DOMAIN A : \A q \in Rng(Pairs(A[i], B[i])) :
   q[1].key = q[2].key /\ (Suffix(q[1].key) \cap T = {} => [q[1] EXCEPT !.kids = <<>>] = [q[2] EXCEPT !.kids = <<>>])
KeysOnce(Tree) == NoDup(LET RECURSIVE All(_) All(n) == <<n.key>> \o Flat([i \in DOMAIN n.kids |-> All(n.kids[i])]) IN Flat([i \in DOMAIN Tree |-> All(Tree[i])]))
Laws == LET A == TLCEval(Scene(F, "A")) IN Once(A) /\ Independent(A) /\ KeysOnce(A)
Emit == phase = "A" /\ F["A"] # <<>> => PrintT("CASE " \o ToJson([files |-> <<[g |-> "A", items |-> F["A"]], [g |-> "B", items |-> F["B"]], [g |-> "C", items |-> F["C"]]>>]))
=============================================================================
