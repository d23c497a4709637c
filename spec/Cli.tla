-------------------------------- MODULE Cli ---------------------------------
(* C22 and C24.  The command line tool: an input is read, every option edits  *)
(* the document in a fixed order, and the result is stored in another format. *)
(* Documents as in the conversion specifications (thousandths).               *)
EXTENDS MqoEdit

RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = "*" THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
  ELSE s # <<>> /\ (p[1] = "?" \/ p[1] = s[1]) /\ Glob(Tail(p), Tail(s))
Like(p, name) == Glob(Chars(p), Chars(name))
AnyLike(ps, name) == \E i \in DOMAIN ps : Like(ps[i], name)

(* ---- scaling -------------------------------------------------------------- *)
(* Factors are thousandths; a model of MMD units becomes millimetres.          *)
Base(o, kind) == IF o.scale # 0 THEN o.scale ELSE IF kind = "pmx" THEN 80000 ELSE 1000
Factor(o, kind) == LET b == Base(o, kind) \div 100 t == IF o.rot THEN -1 ELSE 1 IN
  << t * b * (o.sx \div 100), b * (o.sy \div 100), t * b * (o.sz \div 100) >>      \* hundredths
Scaled(f, v) == [i \in 1..3 |-> (v[i] \div 100) * f[i] + ((v[i] % 100) * f[i]) \div 100]
ScaleDoc(d, f) == [d EXCEPT
  !.objs = [i \in DOMAIN d.objs |-> [d.objs[i] EXCEPT !.verts = [k \in DOMAIN d.objs[i].verts |-> Scaled(f, d.objs[i].verts[k])]]],
  !.bones = [i \in DOMAIN d.bones |-> [d.bones[i] EXCEPT !.pos = Scaled(f, d.bones[i].pos)]],
  !.bodies = [i \in DOMAIN d.bodies |-> [d.bodies[i] EXCEPT !.shapes = [k \in DOMAIN d.bodies[i].shapes |-> [d.bodies[i].shapes[k] EXCEPT !.pos = Scaled(f, d.bodies[i].shapes[k].pos)]]]]]

(* ---- bones ------------------------------------------------------------------ *)
BoneNamed(d, n) == LET S == { k \in DOMAIN d.bones : d.bones[k].name = n } IN IF S = {} THEN 0 ELSE Max(S)
Reparent(d, bp) == LET b == BoneNamed(d, bp[1]) p == BoneNamed(d, bp[2]) IN
  IF b = 0 \/ p = 0 THEN d ELSE [d EXCEPT !.bones[b].parent = d.bones[p].id]
Orphaned(d, bp) == BoneNamed(d, bp[1]) # 0 /\ BoneNamed(d, bp[2]) = 0
RECURSIVE Up(_, _, _)
Up(d, k, n) == IF k = 0 THEN FALSE ELSE IF n = 0 THEN TRUE ELSE Up(d, IF d.bones[k].parent > 0 THEN BoneAt(d.bones, d.bones[k].parent) ELSE 0, n - 1)
Looped(d) == \E k \in DOMAIN d.bones : Up(d, k, Len(d.bones))

(* ---- selections --------------------------------------------------------------- *)
HideObjs(d, ps) == LET dp == Depths(d) IN
  [d EXCEPT !.objs = [i \in DOMAIN d.objs |->
     IF \E a \in {i} \cup Ancestors(dp, i) : AnyLike(ps, d.objs[a].name) THEN [d.objs[i] EXCEPT !.vis = FALSE] ELSE d.objs[i]]]
MorphStep(d, mv) == MorphAll(d, mv.n, mv.v \div 10)

(* ---- materials ------------------------------------------------------------------ *)
(* hid: no longer drawn; am: 0 not given.                                            *)
Alpha(m, a) ==
  IF ~Like(a.p, m.name) \/ m.hid THEN m
  ELSE CASE a.k = "opaque" -> [m EXCEPT !.am = 1, !.col[4] = 1000]
         [] a.k = "mask" -> [m EXCEPT !.am = 2]
         [] a.k = "blend" -> [m EXCEPT !.am = 3]
         [] a.k = "0" -> [m EXCEPT !.hid = TRUE]
         [] OTHER -> [m EXCEPT !.col[4] = a.v, !.am = IF m.am # 0 THEN 3 ELSE m.am]
MatWanted(m, o) ==
  LET s == [name |-> m.name, hid |-> AnyLike(o.hidemat, m.name), col |-> m.col, am |-> m.am, unl |-> m.unlit \/ AnyLike(o.unlit, m.name)] IN
  FoldLeft(Alpha, s, o.alpha)
Touched(m, o) == AnyLike(o.hidemat, m.name) \/ AnyLike(o.unlit, m.name) \/ \E i \in DOMAIN o.alpha : Like(o.alpha[i].p, m.name)
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

(* ---- the whole command ------------------------------------------------------------ *)
Edited(d, o, kind) ==
  LET s == ScaleDoc(d, Factor(o, kind))
      c == FoldLeft(Reparent, s, o.chparent)
      h == IF o.hide = <<>> THEN c ELSE HideObjs(c, o.hide) IN
  FoldLeft(MorphStep, h, o.morph)
Impossible(d, o) == \/ \E i \in DOMAIN o.chparent : Orphaned(d, o.chparent[i])
                    \/ Looped(FoldLeft(Reparent, d, o.chparent))

TolOf(o, kind) == 4 + Base(o, kind) \div 1000 + 4 * Len(o.morph)
CloseAll(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : CloseV(a[k], b[k], tol)
ResultBroken(pre, post, o, kind) ==
  LET w == TLCEval(Edited(pre, o, kind)) t == TolOf(o, kind) IN
  IF Len(post.objs) # Len(w.objs) \/ Len(post.mats) # Len(w.mats) \/ Len(post.bones) # Len(w.bones) THEN {"C22.elements"} ELSE
     Clause("C22.vertices", \A i \in DOMAIN w.objs : CloseAll(post.objs[i].verts, w.objs[i].verts, t))
  \cup Clause("C22.faces", \A i \in DOMAIN w.objs : Len(post.objs[i].faces) = Len(w.objs[i].faces)
         /\ \A f \in DOMAIN w.objs[i].faces : LET a == w.objs[i].faces[f] b == post.objs[i].faces[f] IN a.v = b.v /\ a.m = b.m /\ a.uv = b.uv)
  \cup Clause("C22.objects", \A i \in DOMAIN w.objs : post.objs[i].name = w.objs[i].name /\ post.objs[i].depth = w.objs[i].depth)
  \cup Clause("C22.hide", \A i \in DOMAIN w.objs : post.objs[i].vis = w.objs[i].vis)
  \cup Clause("C22.bones", \A i \in DOMAIN w.bones : post.bones[i].name = w.bones[i].name /\ post.bones[i].id = w.bones[i].id /\ CloseV(post.bones[i].pos, w.bones[i].pos, t) /\ post.bones[i].w = w.bones[i].w)
  \cup Clause("C22.parents", \A i \in DOMAIN w.bones : post.bones[i].parent = w.bones[i].parent)
  \cup Clause("C22.morphs", post.morphs = pre.morphs)
  \cup Clause("C22.bodies", Len(post.bodies) = Len(w.bodies) /\ \A i \in DOMAIN w.bodies : post.bodies[i].name = w.bodies[i].name /\ post.bodies[i].bone = w.bodies[i].bone
         /\ Len(post.bodies[i].shapes) = Len(w.bodies[i].shapes) /\ \A k \in DOMAIN w.bodies[i].shapes : CloseV(post.bodies[i].shapes[k].pos, w.bodies[i].shapes[k].pos, t))
  \cup UNION { LET m == pre.mats[i] q == post.mats[i] x == MatWanted(m, o) IN
         IF x.hid THEN Clause("C22.hidemat", HasPrefix(q.name, m.name) /\ EndsWith(q.name, "$IGNORE") /\ (o.alpha = <<>> \/ (o.hidemat = <<>> /\ Len(o.alpha) = 1) => q.col[4] = 0)) ELSE
            Clause("C22.names", q.name = m.name)
         \cup Clause("C22.colour", CloseV(q.col, x.col, 2) /\ q.tex = m.tex /\ q.dbl = m.dbl)
         \cup Clause("C22.alpha", ~AnyLike(o.unlit, m.name) => q.am = x.am)
         \cup Clause("C22.unlit", q.unlit = x.unl)
         \cup Clause("C22.untouched", ~Touched(m, o) => q.shader = m.shader /\ q.met = m.met /\ q.rou = m.rou /\ q.cut = m.cut)
       : i \in DOMAIN pre.mats }

(* Two views flattened to words and numbers. *)
SameView(a, b, tol) == a.s = b.s /\ Len(a.n) = Len(b.n) /\ \A i \in DOMAIN a.n : Near(a.n[i], b.n[i], tol)

CliBroken(e) ==
  Clause("C22.crash", ~e.panic) \cup
  (IF e.bad # "" THEN Clause("C22.accepted." \o e.bad, e.exit # 0)
   ELSE IF Impossible(e.pre, e.o) THEN {}
   ELSE IF e.exit # 0 THEN {"C22.refused." \o e.kind \o "." \o e.out}
   ELSE Clause("C22.stored", e.stored)
     \cup (IF ~e.stored THEN {} ELSE
           (IF e.post # <<>> THEN ResultBroken(e.pre, e.post[1], e.o, e.kind) ELSE {})
           \cup Clause("C22.through." \o e.out, e.views # <<>> => SameView(e.views[1], e.views[2], 4))))

(* ---- C24: the output is a function of the request ---------------------------------- *)
RepeatBroken(e) == Clause("C24." \o e.kind \o "." \o e.out, \A i, j \in DOMAIN e.runs : e.runs[i] = e.runs[j])
=============================================================================
