------------------------------ MODULE VrmConfig ------------------------------
(* C14.  Applying a VRM configuration to a model: which node each humanoid    *)
(* bone gets, which expressions, spring chains and colliders there are, and   *)
(* what the materials become.  Nodes and meshes are numbered from one; the    *)
(* configuration's own collider indices from zero, as in its file.            *)
EXTENDS Common

RequiredBones == << "hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand",
  "leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot" >>

(* ---- the model --------------------------------------------------------------- *)
NodesNamed(c, n) == { i \in DOMAIN c.nodes : c.nodes[i].name = n }
BoneNodes(c) == { i \in DOMAIN c.nodes : c.nodes[i].mesh = 0 }
RECURSIVE Below(_, _)
Below(c, i) == {i} \cup UNION { Below(c, k) : k \in Rng(c.nodes[i].kids) }
ParentsOf(c, i) == { p \in DOMAIN c.nodes : i \in Rng(c.nodes[p].kids) }
RECURSIVE DepthIn(_, _)
DepthIn(c, i) == LET p == ParentsOf(c, i) IN IF p = {} THEN 0 ELSE 1 + DepthIn(c, Min(p))
MorphsNamed(c, n) == { <<m, k>> \in (DOMAIN c.meshes) \X (1..20) : k \in DOMAIN c.meshes[m] /\ c.meshes[m][k] = n }

(* ---- patterns: * is anything, ? any one character ------------------------------ *)
RECURSIVE Glob(_, _)
Glob(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1] = "*" THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
  ELSE s # <<>> /\ (p[1] = "?" \/ p[1] = s[1]) /\ Glob(Tail(p), Tail(s))
Matching(c, p) == LET q == Chars(p) IN
  IF "*" \in Rng(q) \/ "?" \in Rng(q) THEN { i \in DOMAIN c.nodes : Glob(q, Chars(c.nodes[i].name)) } ELSE NodesNamed(c, p)

(* ---- what physics contributes --------------------------------------------------- *)
(* A chain swings when every body in it does and nothing else hangs on it. *)
RECURSIVE Swings(_, _)
Swings(c, i) == c.nodes[i].body = "dyn" /\ \A k \in Rng(c.nodes[i].kids) : Swings(c, k) \/ (c.nodes[k].body = "" /\ c.nodes[k].kids = <<>>)
ChainTops(c) == { i \in DOMAIN c.nodes : Swings(c, i) /\ \A p \in ParentsOf(c, i) : ~Swings(c, p) }
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
AutoGroups(c) == IF ~c.conf.phys \/ ChainTops(c) = {} THEN <<>> ELSE
  << [tag |-> "auto generated", pats |-> LET t == InOrder(ChainTops(c)) IN [i \in DOMAIN t |-> c.nodes[t[i]].name], cg |-> <<>>, center |-> -1] >>
Balls(n) == SelectSeq(n.shapes, LAMBDA s : s.t \in {"SPHERE", "CAPSULE"} /\ s.r # 0)
AutoCols(c) == IF ~c.conf.colphys THEN <<>> ELSE
  LET w == InOrder({ i \in DOMAIN c.nodes : c.nodes[i].body = "static" /\ Balls(c.nodes[i]) # <<>> }) IN
  [k \in DOMAIN w |-> LET b == Balls(c.nodes[w[k]]) IN [node |-> c.nodes[w[k]].name, cols |-> [q \in DOMAIN b |-> [r |-> b[q].r, at |-> b[q].at]]]]

(* ---- humanoid bones --------------------------------------------------------------- *)
(* Explicit settings come first; a bone set to nothing stays without a node. *)
Mappings(c) == c.conf.bones \o (IF c.preset = <<>> THEN <<>> ELSE c.preset[1].bones)
Candidates(c, names, used) == Flat([k \in DOMAIN names |-> InOrder((NodesNamed(c, names[k]) \cap BoneNodes(c)) \ used)])
BoneStep(c, a, m) ==
  IF m.bone \in a.done THEN a
  ELSE IF m.names = <<>> THEN [a EXCEPT !.done = @ \cup {m.bone}]
  ELSE LET w == Candidates(c, m.names, { x.node : x \in a.map }) IN
    IF w = <<>> THEN a ELSE [done |-> a.done \cup {m.bone}, map |-> a.map \cup {[bone |-> m.bone, node |-> w[1], lim |-> m.lim]}]
Mapped(c) == FoldLeft(LAMBDA a, m : BoneStep(c, a, m), [done |-> {}, map |-> {}], Mappings(c))
WithDefaults(c) == FoldLeft(LAMBDA a, b : BoneStep(c, a, [bone |-> b, names |-> <<b>>, lim |-> FALSE]), Mapped(c), RequiredBones)

(* ---- expressions -------------------------------------------------------------------- *)
Exprs(c) == c.conf.morphs \o (IF c.preset = <<>> THEN <<>> ELSE c.preset[1].morphs)
BindOf(c, m) ==
  IF m.target # "" THEN MorphsNamed(c, m.target)
  ELSE IF m.node = "" THEN {} ELSE { <<c.nodes[i].mesh, m.idx + 1>> : i \in { i \in NodesNamed(c, m.node) : c.nodes[i].mesh # 0 /\ m.idx + 1 \in DOMAIN c.meshes[c.nodes[i].mesh] } }
ExprWanted(c) ==
  LET set == Flat([i \in DOMAIN Exprs(c) |-> LET m == Exprs(c)[i] b == BindOf(c, m) IN
        IF b = {} /\ m.vals = <<>> THEN <<>> ELSE << [name |-> m.name, binds |-> SetToSeq(b), vals |-> m.vals] >>])
      used == UNION { Rng(set[i].binds) : i \in DOMAIN set }
      rest == IF ~c.conf.all THEN <<>> ELSE Flat([m \in DOMAIN c.meshes |-> Flat([k \in DOMAIN c.meshes[m] |-> IF <<m, k>> \in used THEN <<>> ELSE << [name |-> c.meshes[m][k], binds |-> << <<m, k>> >>, vals |-> <<>>] >>])])
  IN set \o rest

(* ---- springs and colliders -------------------------------------------------------------- *)
(* Collider indices of a list of settings mean the groups of that list. *)
SettingsOf(c) == << [groups |-> c.conf.groups, cols |-> c.conf.cols], [groups |-> AutoGroups(c), cols |-> AutoCols(c)] >>
  \o (IF c.preset = <<>> THEN <<>> ELSE << [groups |-> c.preset[1].groups, cols |-> c.preset[1].cols] >>)
ColWanted(c, s) == [k \in DOMAIN s.cols |-> LET n == IF s.cols[k].node = "" THEN {} ELSE NodesNamed(c, s.cols[k].node) IN
  IF n = {} THEN <<>> ELSE << [node |-> Min(n), cols |-> s.cols[k].cols] >>]
(* Each matching bone starts a chain, those nearer the root first, unless some of it swings already. *)
ChainStep(c, a, i) == IF i \notin BoneNodes(c) \/ Below(c, i) \cap a.taken # {} THEN a ELSE [taken |-> a.taken \cup Below(c, i), bones |-> a.bones \cup {i}]
PatStep(c, a, p) == LET w == SetToSortSeq(Matching(c, p), LAMBDA x, y : DepthIn(c, x) < DepthIn(c, y) \/ (DepthIn(c, x) = DepthIn(c, y) /\ x < y)) IN
  FoldLeft(LAMBDA b, i : ChainStep(c, b, i), a, w)
SpringWanted(c) ==
  LET each == Flat([s \in DOMAIN SettingsOf(c) |-> LET q == SettingsOf(c)[s] want == ColWanted(c, q) IN
        [g \in DOMAIN q.groups |-> [g |-> q.groups[g], cols |-> Flat([k \in DOMAIN q.groups[g].cg |-> IF q.groups[g].cg[k] + 1 \in DOMAIN want THEN want[q.groups[g].cg[k] + 1] ELSE <<>>])]]])
      step(a, e) == LET r == FoldLeft(LAMBDA x, p : PatStep(c, x, p), [taken |-> a.taken, bones |-> {}], e.g.pats) IN
        [taken |-> r.taken, out |-> IF r.bones = {} THEN a.out ELSE Append(a.out, [tag |-> e.g.tag, bones |-> r.bones, cols |-> e.cols, center |-> IF e.g.center + 1 \in DOMAIN c.nodes THEN e.g.center ELSE -1])]
  IN FoldLeft(step, [taken |-> {}, out |-> <<>>], each).out
AllCols(c) == Flat([s \in DOMAIN SettingsOf(c) |-> Flat(ColWanted(c, SettingsOf(c)[s]))])

(* ---- materials ---------------------------------------------------------------------------- *)
MatSettings(c) == c.conf.mats \o (IF c.preset = <<>> THEN <<>> ELSE c.preset[1].mats)
SettingFor(c, name) == LET f(k) == SelectSeq(MatSettings(c), LAMBDA s : s.key = k) IN IF f(name) # <<>> THEN <<f(name)[1]>> ELSE IF f("*") # <<>> THEN <<f("*")[1]>> ELSE <<>>
MatWanted(c, m) == LET s == SettingFor(c, m.name) IN IF s = <<>> THEN [name |-> m.name, mode |-> m.mode, a |-> IF m.a < 0 THEN 1000 ELSE m.a, unlit |-> FALSE] ELSE
  [name |-> m.name, unlit |-> s[1].unlit, mode |-> IF s[1].mode \in {"blend", "mask", "opaque"} THEN s[1].mode ELSE m.mode, a |-> IF s[1].alpha > 0 THEN s[1].alpha ELSE IF m.a < 0 THEN 1000 ELSE m.a]

(* ---- the outcome ------------------------------------------------------------------------- *)
OneOf(got, want) == \* every expression binds one of the morphs it may mean
  Len(got) = Len(want) /\ SameBag([i \in DOMAIN got |-> [name |-> got[i].name, vals |-> got[i].vals, n |-> Len(got[i].binds)]], [i \in DOMAIN want |-> [name |-> want[i].name, vals |-> want[i].vals, n |-> Min2(1, Len(want[i].binds))]])
  /\ \A i \in DOMAIN got : \E j \in DOMAIN want : got[i].name = want[j].name /\ got[i].vals = want[j].vals /\ Rng(got[i].binds) \subseteq Rng(want[j].binds) /\ \A x \in DOMAIN got[i].w : got[i].w[x] = 100000
ConfigBroken(c, got) ==
  LET B == TLCEval(WithDefaults(c)) bones == got.bones
      sp == TLCEval(SpringWanted(c)) cols == TLCEval(AllCols(c)) IN
  Clause("C14.bones", Len(bones) = Cardinality(B.map) /\ { [bone |-> bones[i].bone, node |-> bones[i].node] : i \in DOMAIN bones } = { [bone |-> x.bone, node |-> x.node] : x \in B.map })
  \cup Clause("C14.bonelimits", \A i \in DOMAIN bones : \A x \in B.map : x.bone = bones[i].bone => bones[i].lim = x.lim /\ bones[i].def = ~x.lim)
  \cup Clause("C14.missing", Rng(got.missing) = { b \in Rng(RequiredBones) : ~\E x \in B.map : x.bone = b })
  \cup Clause("C14.firstperson", LET head == { x.node : x \in { x \in Mapped(c).map : x.bone = "head" } } IN IF head # {} THEN got.first = <<Min(head)>> ELSE got.first = <<>> \/ \E x \in B.map : x.bone = "head" /\ got.first = <<x.node>>)
  \cup Clause("C14.expressions", OneOf(got.exprs, ExprWanted(c)))
  \cup Clause("C14.colliders", SameBag(got.cols, cols))
  \cup Clause("C14.springs", Len(got.springs) = Len(sp) /\ SameBag([i \in DOMAIN sp |-> <<sp[i].tag, sp[i].bones>>], [i \in DOMAIN got.springs |-> <<got.springs[i].tag, Rng(got.springs[i].bones)>>])
        /\ \A i \in DOMAIN got.springs : Cardinality(Rng(got.springs[i].bones)) = Len(got.springs[i].bones))
  \cup Clause("C14.springrefs", \A i \in DOMAIN got.springs : LET g == got.springs[i] IN
        /\ \A k \in DOMAIN g.cg : g.cg[k] + 1 \in DOMAIN got.cols
        /\ \E j \in DOMAIN sp : sp[j].tag = g.tag /\ sp[j].bones = Rng(g.bones) /\ g.center = sp[j].center /\ SameBag([k \in DOMAIN g.cg |-> got.cols[g.cg[k] + 1]], sp[j].cols))
  \cup Clause("C14.materials", Len(got.mats) = Len(c.mats) /\ \A i \in DOMAIN c.mats : got.mats[i] = MatWanted(c, c.mats[i]))
  \cup Clause("C14.properties", got.props = [i \in DOMAIN c.mats |-> c.mats[i].name])
  \cup Clause("C14.meta", got.title = c.conf.title)
  \cup Clause("C14.extensions", Cardinality(Rng(got.ext)) = Len(got.ext) /\ "VRM" \in Rng(got.ext) /\ "BLENDER_physics" \notin Rng(got.ext) /\ ((\E i \in DOMAIN c.mats : MatWanted(c, c.mats[i]).unlit) => "KHR_materials_unlit" \in Rng(got.ext)))
VrmBroken(ev) ==
  IF ev.c.lost THEN Clause("C14.nopreset", ~ev.ok)
  ELSE IF ~ev.ok THEN {"C14.failed"} ELSE ConfigBroken(ev.c, ev.mem) \cup Clause("C14.stored", ev.mem = ev.file)
=============================================================================
