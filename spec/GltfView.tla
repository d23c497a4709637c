------------------------------ MODULE GltfView ------------------------------
(* What a viewer draws for a glTF file: nodes placed by their ancestors,     *)
(* meshes of indexed triangles, skins, morph targets.  Nodes are numbered    *)
(* from 1 (0: none), vertices and materials from 0.  Matrices are column     *)
(* major, the linear part in thousandths.                                    *)
EXTENDS Soup

(* ---- validity ------------------------------------------------------------- *)
AccOk(g, a) == a[1] = 0 \/ a[5] = 0 \/
  LET b == g.bvs[a[1]] st == IF b[4] > 0 THEN b[4] ELSE a[3] * a[4] IN
  /\ a[2] + (a[5] - 1) * st + a[3] * a[4] <= b[3]
  /\ (b[2] + a[2]) % a[3] = 0
RangesOk(g) ==
  /\ g.refs = <<>>
  /\ \A i \in DOMAIN g.bvs : g.bvs[i][2] + g.bvs[i][3] <= g.bufs[g.bvs[i][1]]
  /\ \A i \in DOMAIN g.acc : AccOk(g, g.acc[i])
MinOf(P, i) == Min({ P[k][i] : k \in DOMAIN P })
MaxOf(P, i) == Max({ P[k][i] : k \in DOMAIN P })
BoundsOk(P, mm, tol) == P = <<>> \/ (Len(mm) = 2 /\ Len(mm[1]) = 3 /\ Len(mm[2]) = 3 /\ \A i \in 1..3 : Near(mm[1][i], MinOf(P, i), tol) /\ Near(mm[2][i], MaxOf(P, i), tol))
PrimOk(q, m) ==
  LET n == Len(q.pos) IN
  /\ n > 0 /\ q.mode = 0 /\ Len(q.idx) % 3 = 0 /\ \A k \in DOMAIN q.idx : q.idx[k] >= 0 /\ q.idx[k] < n
  /\ Len(q.uv) \in {0, n} /\ Len(q.nrm) \in {0, n} /\ Len(q.j) \in {0, n} /\ Len(q.w) = Len(q.j)
  /\ \A t \in DOMAIN q.t : Len(q.t[t].pos) = n /\ Len(q.t[t].nrm) \in {0, Len(q.nrm)} /\ \A v \in DOMAIN q.t[t].nrm : Len(q.t[t].nrm[v]) = 3
  /\ Len(q.t) = Len(m.names)
  /\ BoundsOk(q.pos, q.mm, 1)
SkinOk(s) == (s.ibm = <<>> \/ Len(s.ibm) = Len(s.joints)) /\ NoDup(s.joints)
ParentsOf(g, n) == { p \in DOMAIN g.nodes : n \in Rng(g.nodes[p].ch) }
RECURSIVE ClimbsOut(_, _, _)
ClimbsOut(g, n, k) == LET P == ParentsOf(g, n) IN P = {} \/ (k > 0 /\ ClimbsOut(g, CHOOSE p \in P : TRUE, k - 1))
TreeOk(g) ==
  /\ \A n \in DOMAIN g.nodes : NoDup(g.nodes[n].ch)
  /\ \A n \in DOMAIN g.nodes : Cardinality(ParentsOf(g, n)) <= 1
  /\ NoDup(g.roots) /\ \A n \in Rng(g.roots) : ParentsOf(g, n) = {}
  /\ \A n \in DOMAIN g.nodes : ParentsOf(g, n) = {} => n \in Rng(g.roots)
  /\ \A n \in DOMAIN g.nodes : ClimbsOut(g, n, Len(g.nodes))
JointsOk(g, n) == LET N == g.nodes[n] IN IF N.mesh = 0 THEN N.skin = 0 ELSE
  \A i \in DOMAIN g.meshes[N.mesh].prims : LET q == g.meshes[N.mesh].prims[i] IN
     IF N.skin = 0 THEN TRUE ELSE Len(q.j) = Len(q.pos) /\ \A v \in DOMAIN q.j : \A k \in 1..4 : q.j[v][k] < Len(g.skins[N.skin].joints)
FileOk(g) ==
  /\ RangesOk(g) /\ TreeOk(g)
  /\ \A m \in DOMAIN g.meshes : g.meshes[m].prims # <<>> /\ \A i \in DOMAIN g.meshes[m].prims : PrimOk(g.meshes[m].prims[i], g.meshes[m])
  /\ \A s \in DOMAIN g.skins : SkinOk(g.skins[s])
  /\ \A n \in DOMAIN g.nodes : JointsOk(g, n)

(* ---- placement ------------------------------------------------------------- *)
Ident == <<1000, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1>>
IsIdent(m, tol) == \A i \in 1..15 : Near(m[i], Ident[i], tol)
RDiv(x) == (x + 500) \div 1000
El(m, c, r) == m[4 * (c - 1) + r]
(* Numbers stay in a range in which sums of products are exact. *)
Within(x, k) == IF x > k THEN k ELSE IF x < -k THEN -k ELSE x
MatMul(A, B) == TLCEval([i \in 1..16 |-> LET c == ((i - 1) \div 4) + 1 r == ((i - 1) % 4) + 1 IN
  IF r = 4 THEN (IF c = 4 THEN 1 ELSE 0) ELSE
  Within(RDiv(El(A, 1, r) * El(B, c, 1) + El(A, 2, r) * El(B, c, 2) + El(A, 3, r) * El(B, c, 3)) + (IF c = 4 THEN El(A, 4, r) ELSE 0), IF c = 4 THEN 60001 ELSE 10001)])
Place(m, p) == [r \in 1..3 |-> RDiv(El(m, 1, r) * p[1] + El(m, 2, r) * p[2] + El(m, 3, r) * p[3]) + El(m, 4, r)]
Turn(m, d) == [r \in 1..3 |-> RDiv(El(m, 1, r) * d[1] + El(m, 2, r) * d[2] + El(m, 3, r) * d[3])]
(* Directions under a rotation with one scale. *)
UnitTurn(m, d) == LET s == Abs(m[1]) + Abs(m[2]) + Abs(m[3]) t == Turn(m, d) IN IF s = 0 \/ s > 200000 THEN t ELSE [r \in 1..3 |-> IF Abs(t[r]) > 200000 THEN t[r] ELSE (t[r] * 1000) \div s]
RECURSIVE World(_, _)
World(g, n) == LET P == ParentsOf(g, n) IN IF P = {} THEN g.nodes[n].m ELSE MatMul(World(g, CHOOSE p \in P : TRUE), g.nodes[n].m)
NodeNamed(g, nm) == LET S == { n \in DOMAIN g.nodes : g.nodes[n].name = nm } IN IF Cardinality(S) = 1 THEN CHOOSE n \in S : TRUE ELSE 0
ParentOf(g, n) == LET P == ParentsOf(g, n) IN IF P = {} THEN 0 ELSE CHOOSE p \in P : TRUE

(* Quarter turns, moves and scales. *)
Quarter(k) == CASE k = 0 -> <<1, 0>> [] k = 1 -> <<0, 1>> [] k = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RotX(k) == LET c == 1000 * Quarter(k)[1] s == 1000 * Quarter(k)[2] IN <<1000, 0, 0, 0, 0, c, s, 0, 0, -s, c, 0, 0, 0, 0, 1>>
RotY(k) == LET c == 1000 * Quarter(k)[1] s == 1000 * Quarter(k)[2] IN <<c, 0, -s, 0, 0, 1000, 0, 0, s, 0, c, 0, 0, 0, 0, 1>>
RotZ(k) == LET c == 1000 * Quarter(k)[1] s == 1000 * Quarter(k)[2] IN <<c, s, 0, 0, -s, c, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1>>
MoveOf(t) == <<1000, 0, 0, 0, 0, 1000, 0, 0, 0, 0, 1000, 0, t[1], t[2], t[3], 1>>
ScaleOf(s) == <<s[1], 0, 0, 0, 0, s[2], 0, 0, 0, 0, s[3], 0, 0, 0, 0, 1>>

(* ---- the drawn surface of one node ------------------------------------------ *)
VWeights(g, n, q, v) == LET N == g.nodes[n] IN
  IF N.skin = 0 \/ q.j = <<>> THEN {} ELSE
  { x \in SumBy([k \in 1..4 |-> <<g.nodes[g.skins[N.skin].joints[q.j[v + 1][k] + 1]].name, q.w[v + 1][k]>>]) : x[2] > 0 }
VMoves(M, names, q, v) == { x \in { <<names[t], Turn(M, q.t[t].pos[v + 1])>> : t \in DOMAIN q.t } : ~Zero(x[2]) }
MatName(g, i) == IF i < 0 THEN "" ELSE g.mats[i + 1].name
(* Skinned meshes ignore their node's place (the bind pose leaves them where they are). *)
NodeSoup(g, n) == LET N == g.nodes[n] IN IF N.mesh = 0 THEN <<>> ELSE
  LET M == IF N.skin # 0 THEN Ident ELSE World(g, n) H == g.meshes[N.mesh] IN
  Flat([i \in DOMAIN H.prims |-> LET q == H.prims[i]
     C == TLCEval([v \in Rng(q.idx) |-> [p |-> Place(M, q.pos[v + 1]), uv |-> IF q.uv = <<>> THEN <<0, 0>> ELSE q.uv[v + 1], n |-> IF q.nrm = <<>> THEN <<>> ELSE UnitTurn(M, q.nrm[v + 1]),
                                 w |-> VWeights(g, n, q, v), d |-> VMoves(M, H.names, q, v)]]) IN
     [f \in 1..(Len(q.idx) \div 3) |-> <<MatName(g, q.mat), [k \in 1..3 |-> C[q.idx[3 * (f - 1) + k]]]>>]])
(* Triangles of a primitive: lists (mode 0), strips (5), fans (6); points and lines draw none. *)
TriIdx(q) == LET x == q.idx n == Len(x) IN
  CASE q.mode = 0 -> [i \in 1..(n \div 3) |-> <<x[3 * i - 2], x[3 * i - 1], x[3 * i]>>]
    [] q.mode = 5 -> IF n < 3 THEN <<>> ELSE [i \in 1..(n - 2) |-> IF i % 2 = 1 THEN <<x[i], x[i + 1], x[i + 2]>> ELSE <<x[i], x[i + 2], x[i + 1]>>]
    [] q.mode = 6 -> IF n < 3 THEN <<>> ELSE [i \in 1..(n - 2) |-> <<x[1], x[i + 1], x[i + 2]>>]
    [] OTHER -> <<>>
DetSign(m) == LET c(i, j) == El(m, i, j) IN
  SignOf(RDiv(c(1, 1) * c(2, 2)) * c(3, 3) + RDiv(c(2, 1) * c(3, 2)) * c(1, 3) + RDiv(c(3, 1) * c(1, 2)) * c(2, 3)
         - RDiv(c(3, 1) * c(2, 2)) * c(1, 3) - RDiv(c(2, 1) * c(1, 2)) * c(3, 3) - RDiv(c(1, 1) * c(3, 2)) * c(2, 3))
(* The bind pose: every joint's place undoes its inverse bind matrix. *)
BindOk(g, s, tol) == \A k \in DOMAIN g.skins[s].joints : IsIdent(MatMul(World(g, g.skins[s].joints[k]), IF g.skins[s].ibm = <<>> THEN Ident ELSE g.skins[s].ibm[k]), tol)
=============================================================================
