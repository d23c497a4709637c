------------------------------ MODULE PolyGen ------------------------------
(* Every simple polygon on a small grid, drawn corner by corner, then clipped*)
(* ear by ear in every order.  Invariant: clipped triangles plus the rest    *)
(* are the polygon; an ear is always found (two ears).                       *)
EXTENDS Poly, Json
CONSTANTS GridX, GridY, MaxN, ClipN
VARIABLES path, phase, rem, tris
vars == <<path, phase, rem, tris>>
Grid == (0..GridX) \X (0..GridY)
Init == path = <<>> /\ phase = "draw" /\ rem = <<>> /\ tris = <<>>
Free(p) == LET n == Len(path) IN
  IF n = 0 THEN TRUE
  ELSE /\ p \notin Rng(path)
       /\ \A i \in 1..(n - 2) : ~Meet(path[i], path[i + 1], path[n], p)
       /\ n >= 2 => ~(Turn(path[n], path[n - 1], p) = 0 /\ Dot2(Sub2(path[n - 1], path[n]), Sub2(p, path[n])) > 0)
Draw == /\ phase = "draw" /\ Len(path) < MaxN
        /\ \E p \in Grid : Free(p) /\ path' = Append(path, p)
        /\ UNCHANGED <<phase, rem, tris>>
CloseUp == /\ phase = "draw" /\ Len(path) >= 3 /\ Simple(path)
           /\ phase' = "clip" /\ rem' = [i \in DOMAIN path |-> i - 1] /\ UNCHANGED <<path, tris>>
S == Sgn(Area2(path))
Ring(k) == <<rem[IF k = 1 THEN Len(rem) ELSE k - 1], rem[k], rem[IF k = Len(rem) THEN 1 ELSE k + 1]>>
StrictlyIn(p, a, b, c) == S * Turn(a, b, p) > 0 /\ S * Turn(b, c, p) > 0 /\ S * Turn(c, a, p) > 0
(* An ear: not reflex, and no other corner in it or on its closing edge. *)
Ear(k) == LET t == TriPts(path, Ring(k)) IN
  /\ S * Area2(t) >= 0
  /\ \A j \in DOMAIN rem : path[rem[j] + 1] \notin Rng(t) =>
       ~StrictlyIn(path[rem[j] + 1], t[1], t[2], t[3]) /\ ~OnSeg(path[rem[j] + 1], t[3], t[1])
Clip == /\ phase = "clip" /\ Len(rem) >= 3 /\ Len(path) <= ClipN
        /\ \E k \in DOMAIN rem : Ear(k) /\ tris' = Append(tris, Ring(k)) /\ rem' = RemoveAt(rem, k)
        /\ UNCHANGED <<path, phase>>
Next == Draw \/ CloseUp \/ Clip
Spec == Init /\ [][Next]_vars
RestEdges == IF Len(rem) < 3 THEN <<>> ELSE Edges(Map(rem, LAMBDA i : path[i + 1]))
ChainKept == phase = "clip" => SameChain(TriEdges(path, tris) \o RestEdges, Edges(path), Rng(path))
AlwaysEar == (phase = "clip" /\ Len(rem) >= 3 /\ Len(path) <= ClipN) => \E k \in DOMAIN rem : Ear(k)
Finished == (phase = "clip" /\ Len(rem) < 3) => CountOK(path, tris) /\ Oriented(path, tris) /\ Covers(path, tris)
Emit == (phase = "clip" /\ tris = <<>>) => PrintT("CASE " \o ToJson([poly |-> path]))
=============================================================================
