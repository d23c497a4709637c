------------------------------- MODULE Poly --------------------------------
(* C18.  Splitting a simple polygon (integer corners in its own plane) into  *)
(* triangles.  A set of triangles with the polygon's orientation covers      *)
(* exactly the polygon iff its boundary, as a chain of elementary edges, is  *)
(* the polygon's boundary.                                                   *)
EXTENDS Common

Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Turn(o, a, b) == Cross2(Sub2(a, o), Sub2(b, o))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
OnSeg(p, a, b) == Turn(a, b, p) = 0 /\ Dot2(Sub2(p, a), Sub2(p, b)) <= 0
Inside(p, a, b) == OnSeg(p, a, b) /\ p # a /\ p # b
(* Segments sharing at least one point. *)
Meet(a, b, c, d) ==
  \/ Sgn(Turn(a, b, c)) * Sgn(Turn(a, b, d)) < 0 /\ Sgn(Turn(c, d, a)) * Sgn(Turn(c, d, b)) < 0
  \/ OnSeg(c, a, b) \/ OnSeg(d, a, b) \/ OnSeg(a, c, d) \/ OnSeg(b, c, d)

Edges(poly) == [i \in DOMAIN poly |-> <<poly[i], poly[IF i = Len(poly) THEN 1 ELSE i + 1]>>]
Area2(poly) == SumSeq([i \in DOMAIN poly |-> LET e == Edges(poly)[i] IN Cross2(e[1], e[2])])

(* Simple: edges meet only at shared corners, and area is not zero. *)
Simple(poly) ==
  LET E == Edges(poly) n == Len(poly) IN
  /\ n >= 3 /\ NoDup(poly) /\ Area2(poly) # 0
  /\ \A i, j \in 1..n : i < j =>
       IF j = i + 1 \/ (i = 1 /\ j = n)
       THEN LET common == IF j = i + 1 THEN E[j][1] ELSE E[i][1]
                p == IF j = i + 1 THEN E[i][1] ELSE E[i][2]
                q == IF j = i + 1 THEN E[j][2] ELSE E[j][1]
            IN ~(Turn(common, p, q) = 0 /\ Dot2(Sub2(p, common), Sub2(q, common)) > 0)
       ELSE ~Meet(E[i][1], E[i][2], E[j][1], E[j][2])

Net(es, a, b) == SumSeq([k \in DOMAIN es |->
   IF OnSeg(a, es[k][1], es[k][2]) /\ OnSeg(b, es[k][1], es[k][2])
   THEN Sgn(Dot2(Sub2(b, a), Sub2(es[k][2], es[k][1]))) ELSE 0])
SameChain(es, fs, corners) ==
  \A a, b \in corners : (a # b /\ ~\E c \in corners : Inside(c, a, b)) => Net(es, a, b) = Net(fs, a, b)

Corner(poly, i) == poly[i + 1]
TriPts(poly, t) == <<Corner(poly, t[1]), Corner(poly, t[2]), Corner(poly, t[3])>>
TriEdges(poly, tris) == Flat(Map(tris, LAMBDA t : Edges(TriPts(poly, t))))

ValidIdx(poly, tris) == \A k \in DOMAIN tris : \A j \in 1..3 : tris[k][j] \in 0..(Len(poly) - 1)
Oriented(poly, tris) == \A k \in DOMAIN tris : Sgn(Area2(TriPts(poly, tris[k]))) * Sgn(Area2(poly)) >= 0
Covers(poly, tris) == SameChain(TriEdges(poly, tris), Edges(poly), Rng(poly))
CountOK(poly, tris) == Len(tris) = Len(poly) - 2
=============================================================================
