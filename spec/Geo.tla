-------------------------------- MODULE Geo --------------------------------
(* C19.  Rotations, transforms and vectors in exact arithmetic.  Angles are  *)
(* the twelve whose sine and cosine are multiples of 1/5 (quarter turns and  *)
(* the 3-4-5 angles), so a rotation by three of them is exact in units of    *)
(* 1/125 and a product of two in units of 1/15625.                           *)
EXTENDS Common

Ang == <<<<0, 5>>, <<3, 4>>, <<4, 3>>, <<5, 0>>, <<4, -3>>, <<3, -4>>,
         <<0, -5>>, <<-3, -4>>, <<-4, -3>>, <<-5, 0>>, <<-4, 3>>, <<-3, 4>>>>
S5(i) == Ang[i][1]
C5(i) == Ang[i][2]
(* 3x3 matrices, row major, sequence of rows. *)
RotX(i) == <<<<5, 0, 0>>, <<0, C5(i), -S5(i)>>, <<0, S5(i), C5(i)>>>>
RotY(i) == <<<<C5(i), 0, S5(i)>>, <<0, 5, 0>>, <<-S5(i), 0, C5(i)>>>>
RotZ(i) == <<<<C5(i), -S5(i), 0>>, <<S5(i), C5(i), 0>>, <<0, 0, 5>>>>
Mul3(a, b) == [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
App3(a, v) == [i \in 1..3 |-> a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3]]
Tr3(a) == [i \in 1..3 |-> [j \in 1..3 |-> a[j][i]]]
Scl3(k, a) == [i \in 1..3 |-> [j \in 1..3 |-> k * a[i][j]]]
Det3(a) == a[1][1] * (a[2][2] * a[3][3] - a[2][3] * a[3][2])
         - a[1][2] * (a[2][1] * a[3][3] - a[2][3] * a[3][1])
         + a[1][3] * (a[2][1] * a[3][2] - a[2][2] * a[3][1])
(* Euler angles: the order names the product from left to right (unit 125). *)
EulerMat(e, ord) ==
  LET x == RotX(e[1]) y == RotY(e[2]) z == RotZ(e[3]) IN
  CASE ord = 0 -> Mul3(x, Mul3(y, z))
    [] ord = 1 -> Mul3(y, Mul3(x, z))
    [] ord = 2 -> Mul3(z, Mul3(x, y))
    [] ord = 3 -> Mul3(z, Mul3(y, x))
(* An affine transform [r, t] = translate * rotate * scale (unit 125). *)
TRS(g) == LET R == EulerMat(g.e, g.ord) IN
  [r |-> [i \in 1..3 |-> [j \in 1..3 |-> R[i][j] * g.s[j]]], t |-> [i \in 1..3 |-> 125 * g.t[i]]]
(* Composition, in units of 15625. *)
Comp(a, b) == [r |-> Mul3(a.r, b.r), t |-> [i \in 1..3 |-> App3(a.r, b.t)[i] + 125 * a.t[i]]]
AppT(a, v) == [i \in 1..3 |-> App3(a.r, v)[i] + a.t[i]]

Close3(a, b, tol) == \A i, j \in 1..3 : Near(a[i][j], b[i][j], tol)
CloseV(a, b, tol) == \A i \in DOMAIN b : Near(a[i], b[i], tol)
CloseT(a, b, tol) == Close3(a.r, b.r, tol) /\ CloseV(a.t, b.t, tol)
Ident(u) == <<<<u, 0, 0>>, <<0, u, 0>>, <<0, 0, u>>>>
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
=============================================================================
