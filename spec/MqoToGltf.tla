----------------------------- MODULE MqoToGltf ------------------------------
(* C07, C08.  What an MQO document draws and what its glTF file must draw.    *)
EXTENDS GltfView

(* ---- what is exported -------------------------------------------------------- *)
HasSuffix(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
KeptMat(d, m) == m >= 0 /\ m < Len(d.mats) /\ ~HasSuffix(d.mats[m + 1].name, "$IGNORE") /\ ~HasPrefix(d.mats[m + 1].name, "$MORPH:")
Exported(d, opt) == { i \in DOMAIN d.objs : ~IsTarget(d, d.objs[i].name) /\ (opt.flat => d.objs[i].vis /\ d.objs[i].faces # <<>>) }
Shown(d, f) == Len(f.v) >= 3 /\ KeptMat(d, f.m)
MatchedTargets(d, o) ==
  LET L == { k \in DOMAIN d.morphs : d.morphs[k].base = o.name } IN
  IF L = {} THEN <<>> ELSE
  SelectSeq(d.morphs[Max(L)].targets, LAMBDA n : ObjNamed(d, n) # 0 /\ Len(d.objs[ObjNamed(d, n)].verts) = Len(o.verts))

(* ---- weights: the four largest, adding up to one --------------------------- *)
TopFour(W) == { x \in W : Cardinality({ y \in W : y[2] > x[2] }) < 4 }
Normed(W) == LET T == TopFour(W) s == FoldSet(LAMBDA x, a : x[2] + a, 0, T) IN
  IF s = 0 THEN {} ELSE { <<x[1], (2000 * x[2] + s) \div (2 * s)>> : x \in T }

(* ---- the surface to keep ----------------------------------------------------- *)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
GivenAll(d, o) == \A f \in DOMAIN o.faces : Shown(d, o.faces[f]) => Len(o.faces[f].n) = Len(o.faces[f].v) /\ \A k \in DOMAIN o.faces[f].n : o.faces[f].n[k] # <<>>
Shaded(o, opt) == o.smth >= 0 /\ ~opt.unlit
ObjSurface(d, o, opt) ==
  LET V == TLCEval(WeightsOf(d, o))
      W == TLCEval([v \in DOMAIN o.verts |-> { <<d.bones[x[1]].name, x[2]>> : x \in Normed(V[v]) }])
      N == Rng(MatchedTargets(d, o))
      moves(v) == { x \in { <<n, Sub3(d.objs[ObjNamed(d, n)].verts[v], o.verts[v])>> : n \in N } : ~Zero(x[2]) } IN
  Flat([f \in DOMAIN o.faces |-> LET F == o.faces[f] IN IF ~Shown(d, F) THEN <<>> ELSE
    <<<<d.mats[F.m + 1].name, Rev([k \in DOMAIN F.v |-> [p |-> o.verts[F.v[k]], uv |-> UvAt(F, k), n |-> IF Shaded(o, opt) /\ GivenAll(d, o) THEN F.n[k] ELSE <<>>, w |-> W[F.v[k]], d |-> moves(F.v[k])]])>>>>])
(* Normals that are not compared as part of the corners are dropped. *)
DropN(F) == [i \in DOMAIN F |-> <<F[i][1], [k \in DOMAIN F[i][2] |-> [F[i][2][k] EXCEPT !.n = <<>>]]>>]
(* <<place, uv, normal>> of every drawn corner. *)
ObjNormals(d, o) == UNION { { LET v == o.faces[f].v[k] IN
   <<d.mats[o.faces[f].m + 1].name, o.verts[v], UvAt(o.faces[f], k), IF Len(o.faces[f].n) = Len(o.faces[f].v) /\ o.faces[f].n[k] # <<>> THEN o.faces[f].n[k] ELSE SmoothNormal(o, v, 500)>>
   : k \in DOMAIN o.faces[f].v } : f \in { f \in DOMAIN o.faces : Shown(d, o.faces[f]) } }
NormalsOk(d, o, opt, T) ==
  IF ~Shaded(o, opt) THEN \A i \in DOMAIN T : \A k \in 1..3 : T[i][2][k].n = <<>> ELSE
  LET N == ObjNormals(d, o) IN
  \A i \in DOMAIN T : \A k \in 1..3 : LET c == T[i][2][k] S == { x \in N : x[1] = T[i][1] /\ x[2] = c.p /\ x[3] = c.uv } IN
     c.n # <<>> /\ (S = {} \/ \E x \in S : Along(c.n, x[4]))

(* ---- hierarchy --------------------------------------------------------------- *)
SrcParent(d, E, i) == LET S == { j \in E : j < i /\ d.objs[j].depth < d.objs[i].depth } IN IF S = {} THEN 0 ELSE Max(S)
RECURSIVE UpTo(_, _, _, _)
(* The nearest ancestor whose own place is that of the scene. *)
UpTo(d, E, g, i) == LET p == SrcParent(d, E, i) IN
  IF p = 0 THEN 0 ELSE LET n == NodeNamed(g, d.objs[p].name) IN IF n # 0 /\ ~IsIdent(g.nodes[n].m, 0) THEN UpTo(d, E, g, p) ELSE p
ParentOk(d, E, g, opt, i) ==
  LET p == IF opt.flat THEN 0 ELSE UpTo(d, E, g, i) n == NodeNamed(g, d.objs[i].name) IN
  ParentOf(g, n) = (IF p = 0 THEN 0 ELSE NodeNamed(g, d.objs[p].name))
BoneParent(d, b) == LET S == { c \in DOMAIN d.bones : d.bones[c].id = d.bones[b].parent } IN IF d.bones[b].parent <= 0 \/ S = {} THEN 0 ELSE Min(S)
BoneOk(d, g, b) == LET n == NodeNamed(g, d.bones[b].name) p == BoneParent(d, b) w == World(g, n) IN
  /\ ParentOf(g, n) = (IF p = 0 THEN 0 ELSE NodeNamed(g, d.bones[p].name))
  /\ \A i \in 1..3 : Near(w[12 + i], d.bones[b].pos[i], 1)
  /\ IsIdent([w EXCEPT ![13] = 0, ![14] = 0, ![15] = 0], 0)

(* ---- materials --------------------------------------------------------------- *)
(* Pictures: [name, w, h, size, raw (stored as it is), clear pixels]. *)
PicOf(pics, n) == LET S == { i \in DOMAIN pics : pics[i].name = n } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Recoded(pic, opt) == ~pic.raw \/ opt.rc \/ (opt.thr > 0 /\ pic.size > opt.thr)
Shrunk(x, w, opt) == LET a == (w * opt.ts) \div 1000 IN
  IF opt.lim > 0 /\ a > opt.lim THEN (x * opt.ts * opt.lim) \div (1000 * a) ELSE (x * opt.ts) \div 1000
TexOk(pics, opt, n, t) ==
  IF n = "" \/ PicOf(pics, n) = 0 THEN t.file = "" ELSE
  LET pic == pics[PicOf(pics, n)] IN
  IF ~Recoded(pic, opt) THEN t.file = n ELSE
  LET w == Max2(1, Shrunk(pic.w, pic.w, opt)) h == Max2(1, Shrunk(pic.h, pic.w, opt)) IN
  Near(t.w, w, 1) /\ Near(t.h, h, 1) /\ (w = pic.w /\ h = pic.h /\ pic.png => t.file = n) /\ t.file # ""
(* Alpha detection: the texture has a clear pixel in the part that is used. *)
UsedUvs(d, opt, m) == UNION { UNION { Rng(d.objs[i].faces[f].uv) : f \in { f \in DOMAIN d.objs[i].faces : d.objs[i].faces[f].m = m /\ Len(d.objs[i].faces[f].v) >= 3 } }
                              : i \in { i \in Exported(d, opt) : d.objs[i].vis } }
Axis(U, a) == { u[a] : u \in U }
(* Cell x of n is surely (may be) in the range covered by the coordinates A. *)
Wraps(A) == Max(A) > (Min(A) \div 1000) * 1000 + 1000
MayTouch(A, x, n) == Wraps(A) \/ LET b == (Min(A) \div 1000) * 1000 IN (Min(A) - b) * n <= (x + 1) * 1000 /\ (Max(A) - b) * n >= x * 1000
Covers(A, x, n) == Wraps(A) \/ LET b == (Min(A) \div 1000) * 1000 IN Min(A) # Max(A) /\ (Min(A) - b) * n <= x * 1000 /\ (Max(A) - b) * n >= (x + 1) * 1000
AlphaSure(pic, U) == U # {} /\ \E c \in Rng(pic.clear) : Covers(Axis(U, 1), c[1], pic.w) /\ Covers(Axis(U, 2), c[2], pic.h)
AlphaMay(pic, U) == pic.clear # <<>> /\ (U = {} \/ \E c \in Rng(pic.clear) : MayTouch(Axis(U, 1), c[1], pic.w) /\ MayTouch(Axis(U, 2), c[2], pic.h))
AlphaOk(d, pics, opt, m, q) == LET a == d.mats[m + 1] IN
  IF a.shd = "glTF" THEN q.am = (CASE a.am = 2 -> "MASK" [] a.am = 3 -> "BLEND" [] OTHER -> "OPAQUE") /\ (a.am = 2 => q.cut = a.cut) ELSE
  IF a.col[4] < 990 THEN q.am = "BLEND" ELSE
  LET k == PicOf(pics, a.tex) IN
  IF ~opt.detect \/ k = 0 THEN q.am = "OPAQUE" ELSE
  LET U == UsedUvs(d, opt, m) IN
  (AlphaSure(pics[k], U) => q.am = "BLEND") /\ (q.am = "OPAQUE" \/ (q.am = "BLEND" /\ AlphaMay(pics[k], U)))
Cap(v) == LET s == Max({v[1], v[2], v[3], 1000}) IN [i \in 1..3 |-> (v[i] * 1000) \div s]
EmiOf(a) == Cap(IF a.ec # <<>> THEN a.ec ELSE <<a.emi, a.emi, a.emi>>)
UnlitOf(a, opt) == opt.unlit \/ a.shd = "Constant" \/ (a.shd = "glTF" /\ (a.unl \/ (a.met = 0 /\ a.rou = 1000)))
MaterialOk(d, pics, opt, m, q) == LET a == d.mats[m + 1] IN
  /\ q.name = a.name /\ q.col = a.col /\ q.dbl = a.dbl
  /\ \A i \in 1..3 : Near(q.emi[i], EmiOf(a)[i], 1)
  /\ q.unl = UnlitOf(a, opt)
  /\ (a.shd = "glTF" => q.met = a.met /\ q.rou = a.rou)
MatIx(d, n) == LET S == { i \in DOMAIN d.mats : d.mats[i].name = n } IN IF S = {} THEN -1 ELSE Min(S) - 1

(* ---- the properties ------------------------------------------------------------ *)
Visible(d, opt) == { i \in Exported(d, opt) : d.objs[i].vis }
SurfaceBroken(d, opt, g, i) ==
  LET o == d.objs[i] n == NodeNamed(g, o.name) F == ObjSurface(d, o, opt) T == NodeSoup(g, n)
      T2 == IF Shaded(o, opt) /\ GivenAll(d, o) THEN T ELSE DropN(T)
      plain(S) == [x \in DOMAIN S |-> <<S[x][1], [k \in DOMAIN S[x][2] |-> [S[x][2][k] EXCEPT !.w = {}, !.d = {}]]>>] IN
  CoverBroken("C07", plain(F), plain(T2), 500)
  \cup Clause("C07.normals", NormalsOk(d, o, opt, T))
  \cup (IF CoverBroken("C07", plain(DropN(F)), plain(DropN(T)), 500) # {} THEN {} ELSE
        Clause("C08.weights", SameRim(Look(F, LAMBDA c : <<c.p, c.w>>), Look(T, LAMBDA c : <<c.p, c.w>>)))
        \cup Clause("C08.morphs", SameRim(Look(F, LAMBDA c : <<c.p, c.d>>), Look(T, LAMBDA c : <<c.p, c.d>>)))
        \cup Clause("C08.both", SameRim(DropN(F), DropN(T))))
  \cup Clause("C08.names", T = <<>> \/ g.meshes[g.nodes[n].mesh].names = MatchedTargets(d, o))
GltfBroken(d, opt, pics, g) ==
  IF ~FileOk(g) THEN {"C07.valid"} ELSE
  LET E == Exported(d, opt) IN
  IF \E i \in E : NodeNamed(g, d.objs[i].name) = 0 THEN {"C07.nodes"} ELSE
  IF \E b \in DOMAIN d.bones : NodeNamed(g, d.bones[b].name) = 0 THEN {"C08.joints"} ELSE
  UNION { SurfaceBroken(d, opt, g, i) : i \in Visible(d, opt) }
  \cup Clause("C07.extra", LET V == { NodeNamed(g, d.objs[i].name) : i \in Visible(d, opt) } IN
        /\ Len(g.nodes) = Cardinality(E) + Len(d.bones)
        /\ \A n \in DOMAIN g.nodes : g.nodes[n].mesh = 0 \/ n \in V)
  \cup Clause("C07.tree", \A i \in E : ParentOk(d, E, g, opt, i))
  \cup Clause("C07.materials", \A k \in DOMAIN g.mats : LET m == MatIx(d, g.mats[k].name) IN m >= 0 /\ MaterialOk(d, pics, opt, m, g.mats[k]))
  \cup Clause("C07.textures", \A k \in DOMAIN g.mats : LET m == MatIx(d, g.mats[k].name) IN m >= 0 => TexOk(pics, opt, d.mats[m + 1].tex, g.mats[k].tex))
  \cup Clause("C07.alpha", \A k \in DOMAIN g.mats : LET m == MatIx(d, g.mats[k].name) IN m >= 0 => AlphaOk(d, pics, opt, m, g.mats[k]))
  \cup Clause("C08.bones", \A b \in DOMAIN d.bones : BoneOk(d, g, b))
  \cup Clause("C08.bind", \A s \in DOMAIN g.skins : BindOk(g, s, 1))
=============================================================================
